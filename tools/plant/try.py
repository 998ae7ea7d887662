import sys,os,subprocess,shutil,concurrent.futures as cf
src=sys.argv[1]; want=sys.argv[2:]
g={}; exec(open(src).read(),g); T=[t for t in g['T'] if not want or t[0] in want]
def run(t):
    i,prop,edits=t; w='/tmp/exp/try/'+i
    shutil.rmtree(w,ignore_errors=True); os.makedirs('/tmp/exp/try',exist_ok=True)
    subprocess.run(['cp','-a','/tmp/exp/wr2',w],check=True)
    for f,a,b in edits:
        p=w+'/'+f; s=open(p).read()
        if s.count(a)!=1: return i,'EDIT COUNT %d %s'%(s.count(a),a[:60])
        open(p,'w').write(s.replace(a,b))
    d='.' if '/' not in edits[0][0] else './'+os.path.dirname(edits[0][0])
    r=subprocess.run('. /opt/vp/env.sh; cd %s && go build ./... && go test . ./writer/... ./cmd/qrcode/... 2>&1 | grep -E "^(FAIL|---)" | head -5'%w,shell=True,capture_output=True,text=True)
    tests=(r.stdout+r.stderr).strip().replace('\n',' ')[:200]
    out=[]
    for p in prop.split():
        e=dict(os.environ,VERIF_REPO=w,VERIF_SEED='1')
        try: r=subprocess.run(['nice','python3','run.py',p,'quick'],cwd='/verif',env=e,capture_output=True,text=True,timeout=900)
        except subprocess.TimeoutExpired: out.append(p+' TIMEOUT'); continue
        v=[l for l in r.stdout.splitlines() if l.startswith(p+': ')]
        out.append('%s rc=%d %s'%(p,r.returncode,(v[0][:110] if v else (r.stdout+r.stderr)[-300:])))
    shutil.rmtree(w,ignore_errors=True)
    return i,' | '.join(out)+'  TESTS: '+tests
with cf.ThreadPoolExecutor(2) as ex:
    for i,m in ex.map(run,T): print(i,m,flush=True)
