"""Makes and confirms planted bugs. usage: python3 lib.py FILE.py [id...]"""
import sys, os, subprocess, json, shutil
ROOT="/tmp/exp/seed"
W=os.environ.get("SEEDW", ROOT+"/w")
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
GOENV=". /opt/vp/env.sh; "
def fresh():
    if not os.path.isdir(W):
        r=sh("git -C /repo worktree list"); sh("cp -a /repo "+W)
    r=sh("git -C %s checkout -q -- . && git -C %s clean -fdq && git -C %s pull -q /repo $(git -C /repo rev-parse --abbrev-ref HEAD)"%(W,W,W))
def host():
    e=open("/opt/vp/env.sh").read(); return e.split('HOST_PKGS="')[1].split('"')[0]
def build(): return sh(GOENV+"cd %s && go build -o /dev/null $HOST_PKGS && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm/... && (cd .issues && go build -o /dev/null ./...)"%W)
def tests():
    out=W+"-out.json"
    s=open("/opt/vp/test.sh").read().replace("/repo",W).replace("LOGS=/opt/vp/logs","LOGS=%s-logs"%W).replace("realpath -m","realpath -m")
    open(W+"-test.sh","w").write(s)
    r=sh("bash %s-test.sh %s"%(W,out))
    got=json.load(open(out)) if os.path.exists(out) else {}
    base=json.load(open("/opt/vp/BASELINE.json"))
    return got,base
DEMO='''#!/bin/bash
# Runs the demonstration beside this file as a test of the package %(pkg)s.
. /opt/vp/env.sh
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r -- "$T"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/overlay.json"
export TMPDIR="$T"
go test -overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s %(extra)s -run '^TestDemo$' ./%(pkg)s
'''
def make(s):
    d="/verif/seeded/"+s["id"]
    fresh()
    for f,old,new in s["edits"]:
        p=W+"/"+f; t=open(p).read()
        if t.count(old)!=1: print(s["id"],"EDIT COUNT",t.count(old),f,old[:60]); return False
        open(p,"w").write(t.replace(old,new))
    patch=sh("git -C %s diff"%W).stdout
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+"/patch.diff","w").write(patch)
    json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
    if "demo_sh" in s: open(d+"/demo.sh","w").write(s["demo_sh"])
    else: open(d+"/demo.sh","w").write(DEMO%dict(pkg=s.get("pkg","."),extra=s.get("extra","")))
    for n,c in s.get("files",{}).items(): open(d+"/"+n,"w").write(c)
    if "demo" in s: open(d+"/demo_test.go.txt","w").write(s["demo"])
    os.chmod(d+"/demo.sh",0o755)
    b=build()
    if b.returncode: print(s["id"],"BUILD",b.stderr[-1500:]); return False
    got,base=tests()
    def passed(x):
        return set(x.get("passed",x.get("pass",[])))
    miss=set(base["stable"])-passed(got)
    if miss: print(s["id"],"TESTS FAIL",list(miss)[:6]); ok=False
    else: ok=True
    r1=sh("cd %s && bash %s/demo.sh"%(W,d))
    sh("git -C %s checkout -q -- ."%W)
    r0=sh("cd %s && bash %s/demo.sh"%(W,d))
    if r0.returncode!=0: print(s["id"],"DEMO ON CLEAN",(r0.stdout+r0.stderr)[-1500:]); ok=False
    if r1.returncode==0: print(s["id"],"DEMO NOT FAILING"); ok=False
    if "build failed" in r1.stdout or "[setup failed]" in r1.stdout: print(s["id"],"DEMO BUILD",(r1.stdout+r1.stderr)[-1500:]); ok=False
    print(s["id"],"ok" if ok else "BAD", flush=True)
    if not ok:
        shutil.rmtree(ROOT+"/bad/"+s["id"],ignore_errors=True); os.makedirs(ROOT+"/bad",exist_ok=True); shutil.move(d,ROOT+"/bad/"+s["id"])
    return ok
if __name__=="__main__":
    g={}
    exec(open(sys.argv[1]).read(),g)
    for s in g["S"]:
        if len(sys.argv)<3 or s["id"] in sys.argv[2:]: make(s)
