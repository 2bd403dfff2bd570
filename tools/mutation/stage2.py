import glob,json,sys,os,subprocess,shutil,multiprocessing as mp,re,time
W='/tmp/mut/w2'
env=dict(os.environ)
SH=os.environ.get('SHARDS','40'); OUT=os.environ.get('OUT','/tmp/mut/stage2.jsonl'); IN=os.environ.get('IN','')
anch={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l)
    for f in d['anchors']['files']: anch.setdefault(f,[]).append(d['id'])
ALL=['C%02d'%i for i in range(1,27)]
def sh(cmd,cwd,t=60):
    p=subprocess.Popen(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,env=env,start_new_session=True)
    try:
        o,_=p.communicate(timeout=t); return p.returncode,o.decode(errors='replace')
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except OSError: pass
        p.wait(); return 99,'timeout'
def order(f):
    a=list(anch.get(f,[]))
    for p in ALL:
        if p not in a: a.append(p)
    return a
def worker(k,n,items,outf):
    d=f'{W}/{k}'
    if os.path.exists(d): shutil.rmtree(d)
    os.makedirs(d)
    shutil.copytree('/repo',d+'/repo',symlinks=True)
    shutil.copytree('/verif/harness',d+'/harness')
    g=open(d+'/harness/go.mod').read().replace('=> /repo',f'=> {d}/repo'); open(d+'/harness/go.mod','w').write(g)
    with open(outf,'a') as o:
        for idx,m in items[k::n]:
            p=f'{d}/repo/{m["File"]}'
            src=open(p,'rb').read()
            new=src[:m['Start']]+m['New'].encode()+src[m['End']:]
            open(p,'wb').write(new)
            t0=time.time(); r='survived'; det=''
            rc,out=sh(['go','build','-o',f'{d}/texted','./cmd/texted'],d+'/repo',120)
            rc2,out2=sh(['go','build','-o',f'{d}/h','.'],d+'/harness',120)
            if rc or rc2: r='nobuild'; det=out+out2
            else:
                for prop in order(m['File']):
                    sc=f'{d}/sc'; shutil.rmtree(sc,ignore_errors=True); os.makedirs(sc)
                    rc,out=sh([f'{d}/h','worker','-prop',prop,'-tier','quick','-seed',os.environ.get('SEED','1'),'-verif','/verif','-bin',f'{d}/texted','-repo',f'{d}/repo','-scratch',sc,'-shard','0','-shards',SH,'-budget','150s','-out',f'{d}/out.json'],d,300)
                    if rc:
                        r='crash'; det=prop+': '+out[-300:]; break
                    try: res=json.load(open(f'{d}/out.json'))
                    except Exception as e: r='noout'; det=prop+str(e); break
                    if res.get('Fail') or res.get('fail'):
                        r='killed'; det=prop+': '+(res.get('Fail') or res.get('fail')).get('message','')[:200]; break
                    if res.get('Infra') or res.get('infra'):
                        r='infra'; det=prop+': '+(res.get('Infra') or res.get('infra'))[:300]; break
            open(p,'wb').write(src)
            o.write(json.dumps({'i':idx,'r':r,'d':det,'s':round(time.time()-t0,1)})+'\n'); o.flush()
def skip(m):
    src=open('/repo/'+m['File'],'rb').read()
    ls=src.rfind(b'\n',0,m['Start'])+1; le=src.find(b'\n',m['Start'])
    line=src[ls:le].decode()
    if m['Kind']=='str' and re.search(r'Failed to|Would |Processing|Writing output|Evaluating|Creating|Use .texted|See also|Flags\(\)|Errorf|errors\.New|NewError|panic\(|Description|Short:|Long:|Example',line): return True
    return False
if __name__=='__main__':
    n=int(sys.argv[1]); os.makedirs(W,exist_ok=True)
    ms=[json.loads(l) for l in open('/tmp/mut/all.jsonl')]
    done=set()
    if os.path.exists(OUT): done={json.loads(l)['i'] for l in open(OUT)}
    if IN: ids=[int(x) for x in open(IN).read().split()]
    else: ids=[json.loads(l)['i'] for l in open('/tmp/mut/stage1.jsonl') if '"survived"' in l]
    items=[(i,ms[i]) for i in ids if i not in done and not skip(ms[i])]
    pr={'commands/edit.go':0,'commands/test.go':0,'commands/parse.go':0,'commands/doc.go':0,'commands/mcp.go':0}
    items.sort(key=lambda x:(0 if x[1]['File'].startswith(('commands','tools','cmd')) else 1 if x[1]['File'].startswith(('texted.go','edlisp/testing','edlisp/parser','edlisp/writer')) else 3 if 'builtin' in x[1]['File'] else 2))
    print(len(items))
    ps=[mp.Process(target=worker,args=(k,n,items,OUT)) for k in range(n)]
    [p.start() for p in ps]; [p.join() for p in ps]
