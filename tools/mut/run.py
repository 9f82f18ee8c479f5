import json,subprocess,sys,os,threading,queue
PR={'map.go':'C01','limitmap.go':'C02','limithashmap.go':'C03','linkedhashmap.go':'C04','treemap.go':'C05','consistenthash.go':'C06','uuid/uuid.go':'C21','util/num.go':'C23','util/encode.go':'C32','compress/compress.go':'C22','util/compress.go':'C22','lock/lock.go':'C09 C10','await.go':'C11','fastawait.go':'C12','bloom.go':'C08','lrucache.go':'C07','pool/buffer/':'C18','buffer/buffer.go':'C17 C18','gopool.go':'C13 C14','wshandle.go':'C28','keystore/keystore.go':'C26','bin.go':'C27 C26','key.go':'C25','aes.go':'C25','mmap/mmap.go':'C19 C20','sync_unix.go':'C20','fastio/':'C15 C16','post.go':'C29','base58':'C23','gob.go':'C24','thrift/':'C24','gosignal':'C31'}
def props(f):
    best=''
    for k in PR:
        if k in f and (f.endswith('/'+k) or k.endswith('/') or '/' not in k and (f.split('/')[-1]==k or k in ('base58','gosignal')) or f==k):
            if len(k)>len(best): best=k
    return PR[best].split()
secs=sys.argv[1]; ms=json.load(open(sys.argv[2])); out=sys.argv[3]; nw=int(sys.argv[4])
pat=sys.argv[5:] 
if pat: ms=[m for m in ms if any(p in m['File'] for p in pat)]
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['File'],d['From'],d['New']))
q=queue.Queue()
for m in ms:
    if (m['File'],m['From'],m['New']) not in done: q.put(m)
lk=threading.Lock()
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin',GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GOENV='off',GOFLAGS='-mod=mod')
def work(i):
    W=f'/tmp/mutrepo{i}'
    if not os.path.isdir(W): subprocess.run(f'git clone -q /repo {W}',shell=True)
    while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        subprocess.run('git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD',shell=True,cwd=W)
        p=W+'/'+m['File']; s=open(p,'rb').read()
        open(p,'wb').write(s[:m['From']]+m['New'].encode()+s[m['To']:])
        b=subprocess.run(['go','build','./'+os.path.dirname(m['File'])],cwd=W,env=env,capture_output=True)
        res=None
        if b.returncode: res='nobuild'
        else:
            res='survived'
            for pr in props(m['File']):
                try:
                    r=subprocess.run(['/verif/check','-repo',W,'-secs',secs,pr],capture_output=True,text=True,timeout=700)
                except subprocess.TimeoutExpired:
                    res='timeout '+pr; break
                if r.returncode==1: res='killed '+pr; break
                if r.returncode!=0: res='rc%d %s %s'%(r.returncode,pr,(r.stdout+r.stderr)[-300:]); break
        m['res']=res
        with lk:
            open(out,'a').write(json.dumps(m)+'\n')
ts=[threading.Thread(target=work,args=(i,)) for i in range(nw)]
[t.start() for t in ts]; [t.join() for t in ts]
