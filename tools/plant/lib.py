import os,subprocess,json,shutil,sys
HDR='''package main

import (
	"fmt"
	"os"
%s)

func fail(f string, a ...any) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func main() {
%s
}
'''
DEMO='''#!/bin/bash
# Run in the repository's root. Exit 0: the property holds in this scenario.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false" GOPROXY=off
tmp=$(mktemp -d /tmp/demo-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/demo.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
go build RACE-overlay "$tmp/overlay.json" -o "$tmp/demo" ./cmd/zzdemo || exit 2
go build -o "$tmp/texted" ./cmd/texted || exit 2
mkdir "$tmp/work"
cd "$tmp/work" && TEXTED="$tmp/texted" timeout 120 "$tmp/demo"
'''
def sh(c,cwd=None,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def make(id,prop,edits,needs,breaks,body,imports=('texted',),race=False):
    W='/tmp/p/wt'
    sh('rm -rf /tmp/p/wt; git -C /repo worktree prune; cp -a /repo /tmp/p/wt')
    for f,o,n in edits:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(o)!=1: print(id,'EDIT',f,'count',s.count(o)); return False
        open(p,'w').write(s.replace(o,n))
    sh('. /opt/vp/env.sh; gofmt -l . ',W)
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    diff=sh('git diff',W).stdout; open(d+'/patch.diff','w').write(diff)
    full={'texted':'github.com/dhamidi/texted','edlisp':'github.com/dhamidi/texted/edlisp','parser':'github.com/dhamidi/texted/edlisp/parser','writer':'github.com/dhamidi/texted/edlisp/writer','tools':'github.com/dhamidi/texted/tools','mcp':'github.com/mark3labs/mcp-go/mcp','xt':'github.com/dhamidi/texted/edlisp/testing'}
    im=''.join((f'\txt "{full[i]}"\n' if i=='xt' else f'\t"{full.get(i,i)}"\n') for i in imports)
    open(d+'/demo.go','w').write(HDR%(im,body))
    open(d+'/demo.sh','w').write(DEMO.replace('RACE','-race ' if race else '')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    g=sh('. /opt/vp/env.sh; gofmt -l demo.go; true',d)
    b=sh('. /opt/vp/env.sh; go build ./... && go run ./cmd/texted test -q && go test ./... 2>&1 | grep -v "no test files"',W)
    ok=b.returncode==0 and 'FAIL' not in b.stdout
    d0=sh(d+'/demo.sh',cwd='/repo'); d1=sh(d+'/demo.sh',cwd=W)
    good=ok and d0.returncode==0 and d1.returncode!=0
    print(id,'OK' if good else 'BAD','build/test',ok,'demo',d0.returncode,d1.returncode,(d1.stdout+d1.stderr)[:150].strip())
    if not ok: print(b.stdout[-1500:],b.stderr[-1500:])
    if d0.returncode: print(d0.stdout,d0.stderr)
    return good
