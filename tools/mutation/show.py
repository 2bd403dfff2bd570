import json,sys
ms=[json.loads(l) for l in open('/tmp/mut/all.jsonl')]
f=sys.argv[1] if len(sys.argv)>1 else '/tmp/mut/stage2.jsonl'
seen=set(open('/tmp/mut/seen').read().split()) if __import__('os').path.exists('/tmp/mut/seen') else set()
new=[]
for l in open(f):
    d=json.loads(l)
    if d['r']=='killed' or str(d['i']) in seen: continue
    new.append(str(d['i']))
    m=ms[d['i']]
    src=open('/repo/'+m['File']).read().split('\n')[m['Line']-1].strip()
    print(f"{d['i']} {d['r']} {m['File']}:{m['Line']} [{m['Kind']}] {m['Old'][:60]!r} -> {m['New'][:60]!r} | {src[:110]} {d['d'][:200] if d['r']!='survived' else ''}")
open('/tmp/mut/seen','a').write('\n'.join(new)+'\n')
