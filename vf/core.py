"""Runs one check: builds the driver from /repo, executes cases, has TLC judge the recorded events
against a TLA+ trace specification, runs design models, writes evidence and replay files.

Python only moves files around: every judgement on an observed event is a TLC verdict."""
import itertools, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = os.path.join(VERIF, "tla")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NOBODY = 65534
GOBIN = "/opt/veriftools/go1.27.3/bin"


class Broken(Exception):
    """The check itself could not be carried out (exit 2)."""


class Stuck(Exception):
    """The code under test hung or ended the process so often that the rest was not driven."""
    def __init__(self, events):
        Exception.__init__(self, "stuck")
        self.events = events


def goenv(**kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("GO", "CGO"))}
    for k in ("QRCODE_DEBUG",):
        env.pop(k, None)
    env.update(HOME=os.environ.get("HOME", "/root"),
               PATH=GOBIN + ":" + os.environ.get("PATH", "/usr/bin:/bin"),
               GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-buildvcs=false",
               GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
               GOCACHE=os.environ.get("VERIF_GOCACHE", "/root/.cache/go-build"))
    env.update(kw)
    return env


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        os.chmod(self.tmp, 0o755)
        # The code under test runs as an unprivileged user who owns nothing but this folder: whatever a changed
        # writer does to the paths it is given (/dev/full among them), it can reach nothing else.
        self.box = os.path.join(self.tmp, "box")
        os.mkdir(self.box)
        self.user = {}
        if os.geteuid() == 0:
            os.chown(self.box, NOBODY, NOBODY)
            self.user = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        self.nfile = itertools.count(1)
        self.cases = {}          # id -> case
        self.events = {}         # id -> event
        self.verdicts = {}       # id -> verdict
        self.violations = []     # dicts
        self.states = 0
        self.transitions = 0
        self.models = []         # design models run
        self.notes = {}
        self.samples = []
        self.assumptions = []
        self.level = "exploration"
        self.rule = ""
        self.broken = []
        self._drv = {}
        self.race_report = ""
        self.timing = {}

    # ---------------------------------------------------------------- files
    def path(self, name):
        return os.path.join(self.tmp, "%03d-%s" % (next(self.nfile), name))

    def boxed(self, name):
        return os.path.join(self.box, "%03d-%s" % (next(self.nfile), name))

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def timed(self, what, t):
        self.timing[what] = round(self.timing.get(what, 0) + time.time() - t, 2)

    # ---------------------------------------------------------------- build
    def build(self, tags="verif", race=False, pkg="./drv", goos=None, workdir=None, out="drv"):
        key = (tags, race, pkg, goos)
        if key in self._drv:
            return self._drv[key]
        t = time.time()
        exe = os.path.join(self.tmp, out + ("-race" if race else "") + ("-" + tags if tags else ""))
        cmd = ["go", "build", "-o", exe]
        if tags:
            cmd += ["-tags", tags]
        if race:
            cmd += ["-race"]
        cmd += [pkg]
        # the workspace file is copied so that the module paths can point at REPO
        work = self.workspace()
        env = goenv(GOWORK=work)
        if goos == "js":
            env.update(GOOS="js", GOARCH="wasm")
        r = subprocess.run(cmd, cwd=workdir or os.path.join(VERIF, "harness"), env=env,
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("build of %s failed:\n%s" % (pkg, r.stderr[-4000:]))
        self._drv[key] = exe
        self.timed("build", t)
        return exe

    def workspace(self):
        if getattr(self, "_work", None):
            return self._work
        src = open(os.path.join(VERIF, "harness", "go.work")).read()
        src = src.replace("/repo", REPO).replace("./", os.path.join(VERIF, "harness") + "/")
        work = os.path.join(self.tmp, "go.work")
        open(work, "w").write(src)
        shutil.copy(os.path.join(VERIF, "harness", "go.work.sum"), os.path.join(self.tmp, "go.work.sum"))
        self._work = work
        return work

    # ---------------------------------------------------------------- driver
    def drive(self, cases, par=8, tags="verif", race=False, env=None, exe=None, limit=60):
        """Executes the cases against the real code and records one event per case."""
        t = time.time()
        exe = exe or self.build(tags=tags, race=race)
        todo = list(cases)
        for c in todo:
            if c["id"] in self.cases and self.cases[c["id"]] is not c:
                raise Broken("duplicate case id %r" % c["id"])
            self.cases[c["id"]] = c
        got = {}
        crashes = 0
        while todo:
            fin, fout = self.path("cases.ndjson"), self.boxed("events.ndjson")
            with open(fin, "w") as f:
                for c in todo:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            scratch = self.boxed("cwd")
            os.mkdir(scratch)
            if self.user:
                os.chown(scratch, NOBODY, NOBODY)
            p = subprocess.run([exe, "-in", fin, "-out", fout, "-par", str(par), "-limit", str(limit)],
                               cwd=scratch, env=goenv(HOME=self.box, TMPDIR=self.box, **(env or {})), **self.user,
                               stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")
            if os.path.exists(fout):
                for line in open(fout):
                    try:
                        ev = json.loads(line)
                    except ValueError:
                        continue
                    got[ev["id"]] = ev
            shutil.rmtree(scratch, ignore_errors=True)
            left = [c for c in todo if c["id"] not in got]
            if p.returncode == 4:
                raise Stuck([e for e in got.values() if e["out"] == "hang"])
            if p.returncode == 3:
                raise Broken("driver: " + p.stderr[-2000:])
            if p.returncode == 0 and left:
                raise Broken("driver lost %d cases" % len(left))
            if not left:
                if p.returncode != 0:
                    if race and "DATA RACE" in p.stderr:
                        self.race_report = p.stderr[:4000]
                    else:
                        raise Broken("driver: status %d after all cases\n%s" % (p.returncode, p.stderr[-2000:]))
                break
            # the process died; find the culprit one case at a time
            crashes += 1
            if crashes > 6:
                raise Stuck([e for e in got.values() if e["out"] in ("crash", "hang")])
            if par == 1:
                c = left[0]
                got[c["id"]] = {"id": c["id"], "k": c["k"], "out": "crash", "msg": p.stderr[:300]}
                left = left[1:]
            else:
                par = 1
            todo = left
        self.events.update(got)
        self.timed("drive", t)
        return [got[c["id"]] for c in cases]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=8, extra=(), timeout=850, heap="12g"):
        t = time.time()
        md = self.path("md")
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(VERIF_DATA=os.path.join(TLA, "data"), VERIF_TIER=self.tier, PROP=self.prop,
                 VERIF_SEED=str(self.seed), VERIF_OUT=self.tmp)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + self.tmp, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-DTLA-Library=" + TLA, "-cp", JAR,
               "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
               "-config", cfg or os.path.join(TLA, module + ".cfg"), *extra, os.path.join(TLA, module + ".tla")]
        try:
            r = subprocess.run(cmd, env=e, cwd=self.tmp, capture_output=True, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = r.stdout + r.stderr
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m.group(2)), int(m.group(1))) if m else (0, 0)
        self.timed("tlc", t)
        return r.returncode, out, st

    def validate(self, module, events, cfg=None, env=None, batch=100000):
        """One verdict of the trace specification `module` for every event."""
        todo = list(events)
        unexplained = 0
        while todo:
            f = self.path("trace.ndjson")
            chunk, size = [], 0
            with open(f, "w") as fh:
                for ev in todo[:batch]:
                    size += fh.write(json.dumps(ev, separators=(",", ":")) + "\n")
                    chunk.append(ev)
                    if size > 120 << 20:  # what TLC can hold
                        break
            rest = todo[len(chunk):]
            rc, out, st = self.tlc(module, cfg, dict(env or {}, TRACE=f))
            self.states += st[0]
            self.transitions += st[1]
            verd = {}
            for m in re.finditer(r'^"@@ (\d+) (.*)"$', out, re.M):
                i, v = int(m.group(1)), m.group(2).replace('\\"', '"')
                if v.startswith('"') and v.endswith('"'):
                    v = v[1:-1]
                if verd.get(i, v) != v:
                    raise Broken("contradicting verdicts for event %d of %s" % (i, module))
                verd[i] = v
            ids = {ev["id"] for ev in chunk}
            if set(verd) - ids:
                raise Broken("verdicts for unknown events")
            self.verdicts.update(verd)
            missing = [ev for ev in chunk if ev["id"] not in verd]
            if rc == 0 and not missing:
                os.unlink(f)
                todo = rest
                continue
            if rc == 0:
                raise Broken("%s gave no verdict for event %d" % (module, missing[0]["id"]))
            # an event the specification cannot even evaluate is not one of its behaviours
            m = re.search(r"evt = (\d+)", out)
            deadly = re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|Could not|was interrupted", out)
            unexplained += 1
            if not m or deadly or unexplained > 12:
                raise Broken("TLC failed on %s (status %d):\n%s" % (module, rc, out[-3500:]))
            ev = chunk[int(m.group(1)) - 1]
            if ev["id"] in verd:
                raise Broken("TLC failed on %s after the verdict:\n%s" % (module, out[-3500:]))
            self.verdicts[ev["id"]] = "not-a-behaviour"
            self.log("TLC could not evaluate event %d: %s" % (ev["id"], (re.search(r"Error: .*(?:\n.*){0,4}", out) or [""])[0][:600]))
            todo = [x for x in missing if x["id"] != ev["id"]] + rest
        for ev in events:
            if self.verdicts[ev["id"]] != "ok":
                self.violation(ev["id"], self.verdicts[ev["id"]], module)

    def judge(self, module, cases, chunk=2000, **kw):
        """Drives and validates in parts; what was found in order is not kept in memory."""
        n = 0
        for k in range(0, len(cases), chunk):
            evs = self.drive(cases[k:k + chunk], **kw)
            n += sum(len(e.get("obs", [])) for e in evs)
            self.log("%d of %d cases driven" % (min(k + chunk, len(cases)), len(cases)))
            self.validate(module, evs)
            for e in evs:
                if self.verdicts[e["id"]] == "ok":
                    self.events[e["id"]] = dict(id=e["id"], out=e["out"])
        return n

    def violation(self, cid, verdict, module):
        self.violations.append(dict(case=self.cases.get(cid), event=self.events.get(cid), verdict=verdict, module=module))

    def refute(self, module, cfg, what=""):
        """A design with a known flaw: TLC has to find the violation (guards against a vacuous model)."""
        rc, out, st = self.tlc(module, os.path.join(TLA, cfg))
        if rc != 12:
            raise Broken("the flawed design %s was not refuted:\n%s" % (cfg, out[-3000:]))
        self.models.append(dict(module=cfg, distinct_states=st[0], states_generated=st[1], what=what or "flawed design, refuted"))

    def model(self, module, cfg=None, env=None, workers=8, extra=(), what=""):
        """Checks a design model; a failure here means the specification itself is inconsistent."""
        rc, out, st = self.tlc(module, cfg, env, workers, extra)
        if rc != 0:
            raise Broken("design model %s fails:\n%s" % (module, out[-4000:]))
        self.states += st[0]
        self.transitions += st[1]
        self.models.append(dict(module=module, distinct_states=st[0], states_generated=st[1], what=what))
        return out

    def generate(self, module, cfg=None, env=None, workers=1, extra=()):
        """Has TLC enumerate cases: every line printed as "## {json}" is one."""
        rc, out, st = self.tlc(module, cfg, env, workers, extra)
        if rc != 0:
            raise Broken("generator %s fails:\n%s" % (module, out[-4000:]))
        self.states += st[0]
        self.transitions += st[1]
        self.models.append(dict(module=module, distinct_states=st[0], states_generated=st[1], what="behaviours replayed into the code"))
        got = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'^"## (.*)"$', out, re.M)]
        f = os.path.join(self.tmp, "gen.ndjson")
        if os.path.exists(f):
            got += [json.loads(l) for l in open(f)]
            os.unlink(f)
        if not got:
            raise Broken("generator %s gave nothing" % module)
        got.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return got

    # ---------------------------------------------------------------- result
    def known(self):
        kf = []
        for line in open(os.path.join(VERIF, "known-findings.txt")):
            if line.startswith("finding:"):
                k = json.loads(line[len("finding:"):])
                if k["property"] == self.prop:
                    kf.append(k)
        return kf

    def finish(self):
        kf = self.known()
        fresh, seen = [], set()
        for v in self.violations:
            hit = None
            for k in kf:
                if k.get("case") is not None and strip(v["case"]) == strip(k["case"]):
                    hit = k
            if hit is None:
                fresh.append(v)
            else:
                seen.add(json.dumps(hit, sort_keys=True))
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        out = os.path.join(VERIF, "out", "replay")
        os.makedirs(out, exist_ok=True)
        replays = []
        for n, v in enumerate(fresh[:5]):
            p = os.path.join(out, "%s-%d.json" % (self.prop, n + 1))
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, **v), open(p, "w"), indent=1)
            replays.append(p)
            print("%s: %s: %s" % (self.prop, v["verdict"], json.dumps(v["case"])[:300]))
        self.evidence(len(fresh))
        for p in replays[:1]:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
        if fresh:
            return 1
        if self.broken:
            print("BROKEN CHECK:", *self.broken, sep="\n")
            return 2
        print("%s: held on everything explored (%d events, %d TLC states, %.1f s)"
              % (self.prop, len(self.verdicts), self.states, time.time() - self.t0))
        return 0

    def evidence(self, nviol):
        ev = os.path.join(VERIF, "evidence")
        os.makedirs(ev, exist_ok=True)
        keys = set()
        for c in self.cases.values():
            keys.add(json.dumps(strip(c), sort_keys=True))
        samples = self.samples
        if not samples:
            ids = sorted(self.cases)
            for i in ids[:: max(1, len(ids) // 3)][:3]:
                s = json.dumps(self.cases[i])
                samples.append(s if len(s) < 400 else s[:400] + "...")
        cov = dict(evaluations=len(self.events), distinct_nontrivial=len(keys), rule=self.rule,
                   states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=len(self.verdicts), samples=samples,
                   models=self.models, timing_s=self.timing)
        cov.update(self.notes)
        d = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                 assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=nviol)
        json.dump(d, open(os.path.join(ev, self.prop + ".json"), "w"), indent=1)


def strip(c):
    return {k: v for k, v in (c or {}).items() if k != "id"}


CHECKS = {}


def check(prop, level, rule):
    def deco(f):
        CHECKS[prop] = (f, level, rule)
        return f
    return deco


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 and not argv[2].startswith("-") else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    import vf.checks  # noqa: F401  (registers)
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1], tier, seed)
    f, level, rule = CHECKS[prop]
    ctx = Ctx(prop, tier, seed)
    ctx.level, ctx.rule = level, rule
    try:
        f(ctx)
        rc = ctx.finish()
    except Stuck as ex:
        for e in ex.events:
            ctx.events[e["id"]] = e
            ctx.violation(e["id"], e["out"], None)
        rc = ctx.finish()
    except Broken as ex:
        ctx.broken.append(str(ex))
        if not ctx.violations:
            print("BROKEN CHECK:", str(ex))
            rc = 2
        else:
            rc = ctx.finish()
    finally:
        ctx.close()
    return rc


def replay(prop, path, tier, seed):
    """Executes the recorded case again and has it judged again."""
    d = json.load(open(path))
    ctx = Ctx(prop, tier, d.get("seed", seed))
    try:
        if prop in vfreplay:
            return vfreplay[prop](ctx, d)
        evs = ctx.drive([d["case"]], par=1)
        if d["module"] is None:      # the code did not come back, or the process ended
            print("event:", json.dumps(evs[0])[:2000])
            return 1 if evs[0]["out"] in ("hang", "crash") else 0
        ctx.validate(d["module"], evs)
        print("event:", json.dumps(evs[0])[:2000])
        print("verdict:", ctx.verdicts)
        return 1 if ctx.violations else 0
    finally:
        ctx.close()


vfreplay = {}
