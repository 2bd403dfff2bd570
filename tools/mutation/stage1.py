import glob,json,sys,os,subprocess,shutil,multiprocessing as mp
W='/tmp/mut/w'
env=dict(os.environ); 
def sh(cmd,cwd,t=60):
    try:
        p=subprocess.run(cmd,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,env=env,start_new_session=True)
        return p.returncode,p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired: return 99,'timeout'
def work(a):
    i,q=a
def worker(k,n,items,outf):
    d=f'{W}/{k}'
    if os.path.exists(d): shutil.rmtree(d)
    shutil.copytree('/repo',d,symlinks=True)
    with open(outf,'a') as o:
        for idx,m in items[k::n]:
            p=f'{d}/{m["File"]}'
            src=open(p,'rb').read()
            new=src[:m['Start']]+m['New'].encode()+src[m['End']:]
            open(p,'wb').write(new)
            r='?'
            rc,out=sh(['go','build','-o',f'{W}/t{k}','./cmd/texted'],d)
            if rc: r='nobuild'
            else:
                rc,out=sh(['timeout','20',f'{W}/t{k}','test']+sorted(glob.glob(d+'/tests/*.xml')),d,30)
                if rc: r='killed-xml'
                else:
                    rc,out=sh(['timeout','60','go','test','-vet=off','./...'],d,90)
                    r='killed-go' if rc else 'survived'
            open(p,'wb').write(src)
            o.write(json.dumps({'i':idx,'r':r})+'\n'); o.flush()
if __name__=='__main__':
    n=int(sys.argv[1]); os.makedirs(W,exist_ok=True)
    ms=[json.loads(l) for l in open('/tmp/mut/all.jsonl')]
    done=set()
    outf='/tmp/mut/stage1.jsonl'
    if os.path.exists(outf): done={json.loads(l)['i'] for l in open(outf)}
    items=[(i,m) for i,m in enumerate(ms) if i not in done]
    import random; random.Random(1).shuffle(items)
    ps=[mp.Process(target=worker,args=(k,n,items,outf)) for k in range(n)]
    [p.start() for p in ps]; [p.join() for p in ps]
