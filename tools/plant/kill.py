import sys,os,glob,json,subprocess,shutil,concurrent.futures as cf
want=sys.argv[1:]
def run(i):
    d='/verif/seeded/'+i; w='/tmp/exp/kill/'+i
    shutil.rmtree(w,ignore_errors=True); os.makedirs('/tmp/exp/kill',exist_ok=True)
    subprocess.run(['cp','-a','/repo',w],check=True)
    r=subprocess.run(['git','-C',w,'apply',d+'/patch.diff'],capture_output=True,text=True)
    if r.returncode: return i,'APPLY '+r.stderr
    prop=json.load(open(d+'/meta.json'))['property']
    e=dict(os.environ,VERIF_REPO=w,VERIF_SEED='1')
    import time; t=time.time()
    try: r=subprocess.run(['python3','run.py',prop,'quick'],cwd='/verif',env=e,capture_output=True,text=True,timeout=900)
    except subprocess.TimeoutExpired: return i,'TIMEOUT'
    shutil.rmtree(w,ignore_errors=True)
    v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
    return i,'rc=%d %.0fs %s'%(r.returncode,time.time()-t,(v[0][:150] if v else (r.stdout+r.stderr)[-300:]))
ids=[os.path.basename(x) for x in sorted(glob.glob('/verif/seeded/*'))]
if want: ids=[i for i in ids if any(i.startswith(x) for x in want)]
with cf.ThreadPoolExecutor(3) as ex:
    for i,m in ex.map(run,ids): print(i,m,flush=True)
