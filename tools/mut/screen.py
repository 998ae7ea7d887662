"""screen.py REPO PROP...  -> prints PROP same|diff|error ; with record: stores"""
import sys,os,json,hashlib,pickle
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
repo=sys.argv[1]; os.environ['VERIF_REPO']=repo; os.environ['VERIF_SEED']='1'
mode=sys.argv[2]; props=sys.argv[3:]
from vf import core
import vf.checks
core.REPO=repo
BASE='/tmp/exp/mut/base/'; os.makedirs(BASE,exist_ok=True)
def h(x): return hashlib.md5(json.dumps(x,sort_keys=True).encode()).hexdigest()
class Diff(Exception): pass
for prop in props:
    f,level,rule=core.CHECKS[prop]
    ctx=core.Ctx(prop,'quick',1)
    gen={}
    gf=BASE+prop+'.gen'
    if os.path.exists(gf): gen=pickle.load(open(gf,'rb'))
    og=ctx.generate
    def generate(module,cfg=None,env=None,workers=1,extra=()):
        k=h([module,cfg,{a:b for a,b in (env or {}).items()},list(extra)])
        if k not in gen: gen[k]=og(module,cfg,env,workers,extra)
        import copy; return copy.deepcopy(gen[k])
    ctx.generate=generate
    ctx.model=lambda *a,**k:''
    ctx.refute=lambda *a,**k:None
    rec={}
    ef=BASE+prop+'.ev'
    base=pickle.load(open(ef,'rb')) if mode!='record' and os.path.exists(ef) else None
    nd=pickle.load(open(BASE+prop+'.nd','rb')) if os.path.exists(BASE+prop+'.nd') else set()
    diffs=[]
    def validate(module,events,cfg=None,env=None,batch=0):
        for e in events:
            k=(module,e['id']); rec[k]=h({a:b for a,b in e.items()})
            ctx.verdicts[e['id']]='ok'
            if base is not None and k not in nd and base.get(k)!=rec[k]:
                diffs.append(k)
                if mode=='compare' and len(diffs)>2: raise Diff()
    ctx.validate=validate
    res='same'
    try:
        f(ctx)
    except Diff: res='diff'
    except core.Stuck: res='stuck'
    except core.Broken as e: res='broken '+str(e)[:200].replace('\n',' ')
    except Exception as e: res='exc '+repr(e)[:200]
    finally: ctx.close()
    if diffs and res=='same': res='diff%d'%len(diffs)
    if mode=='record':
        pickle.dump(gen,open(gf,'wb')); pickle.dump(rec,open(ef,'wb'))
    if mode=='nd': pickle.dump(nd|set(diffs),open(BASE+prop+'.nd','wb'))
    print(prop,res,len(rec),len(diffs),flush=True)
