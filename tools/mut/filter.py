import json,random,subprocess,os,sys,shutil,concurrent.futures as cf
N=int(sys.argv[1]); seed=int(sys.argv[2]); out=sys.argv[3]
random.seed(seed)
allm=[json.loads(l) for l in open('/tmp/exp/mut/all.json')]
by={}
for m in allm:
    l=open('/repo/'+m['file']).read().split('\n')[m['line']-1]
    if 'debugLogf' in l or 'log.Print' in l: continue
    if m['file'] in('cmd/wasm/main.go',): pass
    by.setdefault(m['file'],[]).append(m)
pick=[]
import math
w={f:math.sqrt(len(v)) for f,v in by.items()}
tot=sum(w.values())
for f,v in by.items():
    k=max(4,int(N*w[f]/tot)); random.shuffle(v); pick+=v[:k]
random.shuffle(pick)
ENV=dict(os.environ)
mods={'cmd/qrcode':'cmd/qrcode','cmd/wasm':'cmd/wasm','writer/':'x'}
def pk(f): return os.path.dirname(f) or '.'
TESTPK={ '.':['.','./writer/standard','./writer/file','./cmd/qrcode','./writer/compressed','./writer/terminal'] }
W=['/tmp/exp/mut/w%d'%i for i in range(3)]
for w_ in W:
    shutil.rmtree(w_,ignore_errors=True); shutil.copytree('/repo',w_,symlinks=True); subprocess.run(['chown','-R','65534:65534',w_])
import queue
q=queue.Queue()
for w_ in W:q.put(w_)
def has(p,w_): return any(x.endswith('_test.go') for x in os.listdir(w_+'/'+p))
def run(im):
    i,m=im
    w_=q.get()
    try:
        p=w_+'/'+m['file']; s=open(p,'rb').read()
        t=s[:m['From']]+m['New'].encode()+s[m['To']:]
        open(p,'wb').write(t)
        try:
            d=pk(m['file'])
            if d=='cmd/wasm':
                r=subprocess.run('. /opt/vp/env.sh; GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm/',shell=True,cwd=w_,capture_output=True)
                return i,m,'survive' if r.returncode==0 else 'build'
            pks=['.'] if d=='.' else [d]
            if d.startswith('writer/standard'): pks=['writer/standard','writer/standard/imgkit','writer/standard/shapes']
            for k in pks:
                if not has(k,w_): 
                    r=subprocess.run('. /opt/vp/env.sh; go vet ./%s 2>/dev/null; go build -o /dev/null ./%s'%(k,k),shell=True,cwd=w_,capture_output=True)
                    if r.returncode: return i,m,'build'
                    continue
                r=subprocess.run('. /opt/vp/env.sh; go test -vet=off -c -o %s/%s/zz.test ./%s'%(w_,k,k),shell=True,cwd=w_,capture_output=True)
                if r.returncode: return i,m,'build'
                r=subprocess.run('ulimit -v 12000000; setpriv --reuid 65534 --regid 65534 --clear-groups timeout 40 ./zz.test',shell=True,cwd=w_+'/'+k,capture_output=True,env=dict(ENV,HOME=w_,TMPDIR=w_))
                if r.returncode: return i,m,'killed'
            return i,m,'survive'
        finally:
            open(p,'wb').write(s)
    finally: q.put(w_)
c={}
with open(out,'w') as fo, cf.ThreadPoolExecutor(3) as ex:
    for i,m,v in ex.map(run,enumerate(pick)):
        c[v]=c.get(v,0)+1
        if v=='survive': fo.write(json.dumps(m)+'\n'); fo.flush()
print(c)
