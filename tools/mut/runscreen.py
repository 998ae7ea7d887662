import json,sys,os,subprocess,shutil,concurrent.futures as cf,queue
NW=int(os.environ.get('NW','3'))
src=sys.argv[1]; out=sys.argv[2]
MAP={'qrcode.go':'C26 C03 C02 C01 C13','encoder.go':'C26 C01 C09','chardet.go':'C07 C09','version.go':'C08 C03 C04 C02','mask.go':'C01 C05','mask_evaluation.go':'C05','kmp_variant.go':'C05',
'matrix.go':'C12 C03 C13','matrix_type.go':'C12 C03 C05','encoder_option.go':'C10','debug.go':'C25 C10','utilities.go':'C03 C01',
'cmd/qrcode':'C23','cmd/wasm':'C24','writer/compressed':'C18 C22 C21','writer/file':'C19 C21','writer/terminal':'C20x','writer/standard/imgkit':'C27 C17 C22','writer/standard/gradient.go':'C17 C14','writer/standard/shapes':'C15 C16','writer/standard':'C14 C15 C16 C17 C22 C21'}
def props(f):
    for k in (f,os.path.dirname(f)):
        if k in MAP: return MAP[k].split()
    return ['C14']
done={}
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done[(d['file'],d['From'],d['New'])]=1
W=queue.Queue()
for i in range(NW):
    w='/tmp/exp/mut/s%d'%i; shutil.rmtree(w,ignore_errors=True); subprocess.run(['cp','-a','/repo',w]); W.put(w)
def run(m):
    if (m['file'],m['From'],m['New']) in done: return m,None
    w=W.get()
    try:
        p=w+'/'+m['file']; s=open(p,'rb').read()
        open(p,'wb').write(s[:m['From']]+m['New'].encode()+s[m['To']:])
        res=[]
        try:
            for pr in props(m['file']):
                if pr=='C20x': return m,['skip']
                try:
                    r=subprocess.run(['nice','-n','10','python3','/tmp/exp/mut/screen.py',w,'compare',pr],capture_output=True,text=True,timeout=400)
                    x=(r.stdout.strip().split('\n')[-1] if r.stdout.strip() else 'ERR '+r.stderr[-200:])
                except subprocess.TimeoutExpired: x=pr+' timeout'
                res.append(x)
                if ' same ' not in x: break
            return m,res
        finally: open(p,'wb').write(s)
    finally: W.put(w)
ms=[json.loads(l) for l in open(src)]
with open(out,'a') as fo, cf.ThreadPoolExecutor(NW) as ex:
    for m,res in ex.map(run,ms):
        if res is None: continue
        m['res']=res; fo.write(json.dumps(m)+'\n'); fo.flush()
print('done')
