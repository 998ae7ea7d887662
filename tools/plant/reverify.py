import sys,os,glob
sys.path.insert(0,'/tmp/exp/seed')
import lib
for d in sorted(glob.glob('/verif/seeded/*')):
    i=os.path.basename(d)
    if len(sys.argv)>1 and i not in sys.argv[1:]: continue
    lib.fresh()
    r=lib.sh("git -C %s apply %s/patch.diff"%(lib.W,d))
    if r.returncode: print(i,"APPLY",r.stderr); continue
    b=lib.build()
    got,base=lib.tests()
    miss=set(base["stable"])-set(got.get("passed",[]))
    print(i,"build",b.returncode,"missing",sorted(miss)[:5],flush=True)
lib.fresh()
