"""C06, C25: the symbol is a function of text and options, whatever the schedule, history or debug mode."""
import os, random
from concurrent import futures
from .core import check, TLA
from .texts import API, text, force_byte
from .request import Hist, step, lstep
from .symbol import rows
from .object import req

HEADKEYS = None


def join(*runs):
    """One event per case holding the observations of all runs (different processes, settings)."""
    out = []
    for evs in zip(*runs):
        bad = [e for e in evs if e["out"] != "ok"]
        e = dict(evs[0], obs=[o for x in evs for o in x.get("obs", [])])
        if bad:
            e["out"] = bad[0]["out"]
        out.append(e)
    return out


@check("C06", "model_checking",
       "completion orders of the mask workers taken from simulated behaviours of MaskSelect.tla (plus every ordered pair first/last) "
       "imposed on the real workers; concurrent constructions under the race detector; the same histories in several processes; "
       "distinct = differs in text, options, order or schedule")
def c06(ctx):
    rnd = random.Random("C06-%d" % ctx.seed)
    ctx.model("MaskSelect", what="4 workers, 3 scores, every interleaving: the choice is independent of the schedule and reached")
    ctx.refute("MaskSelect", "MaskSelectBug.cfg", "first-come tie breaking, refuted")
    n = 2000 if ctx.thorough else 300
    g = ctx.generate("MaskSelect", cfg=os.path.join(TLA, "MaskSelectSim.cfg"),
                     extra=["-simulate", "num=%d" % n, "-depth", "60", "-seed", str(ctx.seed)])
    orders = sorted({tuple(x["order"]) for x in g})
    ends = []
    for a in range(8):
        for b in range(8):
            if a != b:
                mid = [x for x in range(8) if x not in (a, b)]
                rnd.shuffle(mid)
                ends.append([a] + mid + [b])
    fixed = [list(range(8)), list(range(7, -1, -1))]
    cases, i = [], 0

    def add(**kw):
        nonlocal i
        i += 1
        cases.append(dict(id=i, **kw))

    # many small symbols (ties between masks are common there), a few orders each
    for k in range(1500 if ctx.thorough else 400):
        s = step(text(rnd, rnd.choice((1, 2, 4)), rnd.randint(0, 12)), [("ec", rnd.randint(1, 4))])
        add(k="sched", orders=fixed + [list(rnd.choice(orders)) for _ in range(6)], **s)
    for k in range(12 if ctx.thorough else 3):
        s = step(text(rnd, 4, rnd.randint(0, 40)), [("ec", rnd.randint(1, 4))])
        add(k="sched", orders=ends + [list(o) for o in orders[:200]], **s)
    # for every pair of masks, symbols that have both as their best: either of them finishing first
    pairs = {}
    try:
        for e in ctx.drive([dict(id=900000 + k, k="ties", seed=rnd.randrange(1 << 30), tries=800 if ctx.thorough else 240) for k in range(64)]):
            for x in e.get("found", []):
                for a in x["tied"]:
                    for b in x["tied"]:
                        if a < b:
                            pairs.setdefault((a, b), []).append(x)
    except Exception as x:  # only a search for inputs
        ctx.log("no search for ties: %s" % x)
    for k in range(64):
        ctx.cases.pop(900000 + k, None)
        ctx.events.pop(900000 + k, None)
    for (a, b), l in sorted(pairs.items()):
        for x in rnd.sample(l, min(len(l), 12 if ctx.thorough else 4)):
            mid = [m for m in range(8) if m not in (a, b)]
            rnd.shuffle(mid)
            add(k="sched", orders=[[b] + mid + [a], [a] + mid + [b], mid + [b, a], mid + [a, b]], raw=x["raw"], opts=[dict(o="ec", n=x["ec"])])
    ctx.notes["pairs_of_tied_masks"] = len(pairs)
    for v in range(1, 41):
        s = step(text(rnd, rnd.choice((1, 2, 4)), rnd.randint(0, 9)), [("ver", v), ("ec", rnd.randint(1, 4))])
        add(k="sched", orders=fixed + [rnd.choice(ends)], procs=rnd.choice([1, 2, 8]), **s)
    evs = ctx.drive(cases, par=1)
    ctx.notes["imposed_orders"] = sum(e.get("imposed", 0) for e in evs)
    ctx.notes["constructions"] = sum(len(e.get("obs", [])) for e in evs)
    ctx.log("scheduled: %d orders imposed" % ctx.notes["imposed_orders"])

    # histories: the same constructions in two processes, in opposite order, on one and on many processors
    hist = []
    rs = rows(ctx)
    for k in range(200 if ctx.thorough else 60):
        steps = []
        for r in rnd.sample(rs, 4):
            w = 3 if r["mode"] == 8 else 1
            n = rnd.randint(0, min(r["cap"], 400))
            steps.append(lstep(text(rnd, r["mode"], 3), n * w, [("ec", r["lv"]), ("mode", API[r["mode"]]), ("ver", r["ver"])]))
        for _ in range(4):
            m = rnd.choice((1, 2, 4, 8))
            steps.append(step(text(rnd, m, rnd.randint(0, 90)), rnd.choice([[], [("ec", rnd.randint(1, 4))], [("ver", 1)]])))
        steps += [dict(s) for s in rnd.sample(steps, 3)]
        i += 1
        hist.append(dict(id=i, k="req", steps=steps, share=bool(k % 2)))
    a = ctx.drive(hist, par=8)
    rev = [dict(c, steps=c["steps"][::-1]) for c in reversed(hist)]
    saved = dict(ctx.cases)
    for c in rev:
        ctx.cases.pop(c["id"])
    b = ctx.drive(rev, par=1, env={"GOMAXPROCS": "1"})[::-1]
    ctx.cases = saved
    evs += join(a, b)
    ctx.log("histories done")

    # concurrent constructions under the race detector
    conc = []
    for k in range(120 if ctx.thorough else 24):
        steps = []
        for _ in range(rnd.randint(2, 5)):
            m = rnd.choice((1, 2, 4, 8))
            steps.append(step(text(rnd, m, rnd.randint(0, 30)),
                              [("ec", rnd.randint(1, 4))] + ([("ver", rnd.choice([6, 7, 8, 10, 14, 27, 32, 40]) if m != 8 else 10)] if rnd.random() < .4 else [])
                              + ([("min", rnd.randint(1, 8))] if rnd.random() < .3 else [])))
        i += 1
        conc.append(dict(id=i, k="conc", steps=steps, g=rnd.choice([2, 4, 8]), procs=rnd.choice([1, 2, 8]), share=bool(k % 2)))
    raced = ctx.drive(conc, par=1, race=True, tags="", env={"GORACE": "halt_on_error=0 exitcode=66"})
    # the same with nothing but goroutines started in a fresh process (first uses of package state race here)
    evs += raced
    i += 1
    ev = dict(id=i, k="race", out="race" if ctx.race_report else "ok", obs=[])
    ctx.cases[i] = dict(id=i, k="race", note="race detector over all concurrent cases", report=ctx.race_report)
    ctx.events[i] = ev
    evs.append(ev)
    ctx.log("concurrent done")
    ctx.validate("TraceRequest", evs)


@check("C25", "model_checking",
       "histories of constructions (all versions, levels, modes, failing requests) executed with debug mode off, on by environment, on by call "
       "half-way, with the drawing directory present, missing or replaced by a file; symbols and writer outputs must be one function of text and options")
def c25(ctx):
    rnd = random.Random("C25-%d" % ctx.seed)
    hist, i = [], 0
    rs = rows(ctx)
    pick = rs if ctx.thorough else [r for r in rs if (r["ver"] * 7 + r["lv"] * 3 + r["mode"]) % 11 == 0 or r["ver"] <= 3]
    rnd.shuffle(pick)
    for r in pick:
        w = 3 if r["mode"] == 8 else 1
        o = [("ec", r["lv"]), ("mode", API[r["mode"]])] + ([("ver", r["ver"])] if rnd.random() < .6 else [])
        n = rnd.choice([r["low"], r["cap"], rnd.randint(0, r["cap"])])
        hist.append([lstep(text(rnd, r["mode"], 3), n * w, o)])
    for _ in range(200 if ctx.thorough else 40):
        hist.append([step(text(rnd, rnd.choice((1, 2, 4, 8)), rnd.randint(0, 40)),
                          [rnd.choice([("mode", 4), ("mode", 3), ("ver", 1), ("ec", 1), ("min", 8), ("mode", 16)]) for _ in range(rnd.randint(0, 2))],
                          pics=rnd.random() < .5)])
    cases = [dict(id=k + 1, k="req", steps=s, share=False) for k, s in enumerate(hist)]
    n = len(cases)
    runs = [ctx.drive(cases)]
    base = dict(ctx.cases)
    modes = [("env, no directory", {"QRCODE_DEBUG": "1"}, 2, 0), ("env, directory", {"QRCODE_DEBUG": "true"}, 1, 0),
             ("call, file in the way", {}, 3, 1)]
    if ctx.thorough:
        modes += [("env %s" % v, {"QRCODE_DEBUG": v}, d, 0) for v in ("TRUE", "enabled", "ENABLED") for d in (1, 2, 3)]
        modes += [("call, directory", {}, 1, 1)]
    for what, env, draft, dbg in modes:
        # drawing needs a lot of time for large symbols, so only part of the cases draws
        sub = []
        for c in cases:
            st = [dict(s) for s in c["steps"]]
            sub.append(dict(c, steps=st))
        sub[0]["steps"][0] = dict(sub[0]["steps"][0], draft=draft, dbg=dbg)
        if draft == 1 and not ctx.thorough:
            sub = [c for c in sub if c["id"] <= 1 or small(c)]
        for c in sub:
            ctx.cases.pop(c["id"], None)
        evs = {e["id"]: e for e in ctx.drive(sub, par=1, env=env)}
        ctx.cases = dict(base)
        runs.append([evs.get(c["id"], dict(id=c["id"], k="req", out="ok", obs=[])) for c in cases])
        ctx.log(what, "done: %d cases" % len(sub))
    ctx.notes["debug_configurations"] = [m[0] for m in modes]
    evs = join(*runs)
    ctx.notes["constructions"] = sum(len(e["obs"]) for e in evs)
    ctx.validate("TraceRequest", evs)


def small(c):
    s = c["steps"][0]
    v = [o["n"] for o in s["opts"] if o["o"] == "ver"]
    return (v and v[0] <= 7 or not v) and (s.get("n") or len(s["raw"])) < 60


def shape(rnd):
    y = rnd.choice(["liquid", "hstripe", "vstripe", "chain", "vchain", "hchain", "square", "circle"])
    return dict(o="shape", x=rnd.choice(["rounded", "square"]), y=y, n=rnd.choice([50, 85, 100]))


def save_job(rnd, nsym, kinds):
    k = rnd.choice(kinds)
    j = dict(sym=rnd.randrange(nsym), kind=k, opts=[], pad=rnd.randint(0, 3), block=rnd.randint(1, 3), fault=False)
    if k != "std":
        return j
    o = [dict(o="enc", t=rnd.choice(["png", "png", "jpeg"])), dict(o="width", n=rnd.choice([3, 6, 9]))]
    if rnd.random() < .7:
        o.append(shape(rnd))
    for x in (dict(o="border", l=[rnd.randint(0, 9)]), dict(o="fghex", x="#123456"), dict(o="bghex", x="#fedcba"), dict(o="transparent"),
              dict(o="halftone", t=rnd.choice(["image", "image", "plain"]), l=[rnd.choice([20, 40]), 0, 0], n=rnd.randint(0, 4)), dict(o="grad", l=[1, 1, 0], s=[[0, 255, 0, 0], [100, 0, 0, 255]]),
              dict(o="logo", t="", l=[9, 9, 0, 0]), dict(o="safe"), dict(o="circle")):
        if rnd.random() < (.35 if x["o"] == "halftone" else .22) and not (x["o"] in ("circle", "halftone") and any(y["o"] == "shape" for y in o)):
            o.append(x)
    j["opts"] = o
    return j


@check("C29", "model_checking",
       "complete interleavings of three Saves (four steps each, any one sink failing) emitted by ConcurrentSave.tla and imposed on real Saves through their sinks, "
       "shapes and writers (quick: sampled); unscheduled Saves under the race detector; distinct = differs in symbols, writers, options, schedule or fault")
def c29(ctx):
    rnd = random.Random("C29-%d" % ctx.seed)
    ctx.model("ConcurrentSave", what="two Saves with their own buffers, every interleaving: isolated, and all finish")
    ctx.refute("ConcurrentSave", "ConcurrentSaveBug.cfg", "a buffer shared by two Saves, refuted")
    g = ctx.generate("ConcurrentSave", cfg=os.path.join(TLA, "ConcurrentSaveGen.cfg"))
    cases = []
    kinds = ["std", "std", "std", "std", "comp", "custom", "custom", "file"]
    for x in rnd.sample(g, 6000 if ctx.thorough else 450):
        v = rnd.choice([1, 1, 2, 3])
        syms = [step(text(rnd, rnd.choice((1, 2, 4)), rnd.randint(0, 7)), [("ver", v), ("ec", rnd.randint(1, 4))]) for _ in range(rnd.randint(1, 3))]
        if rnd.random() < .6:       # alike: most likely to share something
            first = save_job(rnd, len(syms), kinds)
            jobs = [dict(first, sym=rnd.randrange(len(syms))) for _ in range(3)]
        else:
            jobs = [save_job(rnd, len(syms), kinds) for _ in range(3)]
        if x["faulty"] and jobs[x["faulty"] - 1]["kind"] != "file":
            jobs[x["faulty"] - 1]["fault"] = True
        cases.append(dict(id=len(cases) + 1, k="concsave", syms=syms, jobs=jobs, sched=x["sched"], share=rnd.random() < .6))
    evs = ctx.drive(cases, par=8)
    ctx.notes["steps_imposed"] = sum(e.get("steps", 0) for e in evs)
    ctx.log("%d steps imposed" % ctx.notes["steps_imposed"])
    free = []
    for k in range(160 if ctx.thorough else 24):
        syms = [step(text(rnd, rnd.choice((1, 2, 4)), rnd.randint(0, 7)), [("ver", rnd.choice([1, 2])), ("ec", rnd.randint(1, 4))]) for _ in range(2)]
        jobs = [save_job(rnd, 2, kinds) for _ in range(rnd.randint(2, 5))]
        free.append(dict(id=len(cases) + k + 1, k="concfree", syms=syms, jobs=jobs, sched=[], share=rnd.random() < .7, g=rnd.choice([2, 3, 4]), procs=rnd.choice([2, 8])))
    evs += ctx.drive(free, par=1, race=True, tags="", env={"GORACE": "halt_on_error=0 exitcode=66"})
    i = len(cases) + len(free) + 1
    ev = dict(id=i, k="race", out="race" if ctx.race_report else "ok", jobs=[])
    ctx.cases[i] = dict(id=i, k="race", note="race detector over all unscheduled cases", report=ctx.race_report)
    ctx.events[i] = ev
    evs.append(ev)
    ctx.log("race detector done")
    ctx.validate("TraceConc", evs)


@check("C30", "model_checking",
       "every history of two operations (thorough: three, sampled) and simulated ones of nine over constructions, writers for files, saves, options and helpers that "
       "succeed or fail in every way of Resources.tla, with and without debug mode; distinct = differs in text, options, operations or debug mode")
def c30(ctx):
    rnd = random.Random("C30-%d" % ctx.seed)
    for cfg, what in (("ResourcesBug1.cfg", "construction returning before its workers, refuted"), ("ResourcesBug2.cfg", "failing write without close, refuted"),
                      ("ResourcesBug3.cfg", "undecodable picture left open, refuted")):
        ctx.refute("Resources", cfg, what)
    g = ctx.generate("Resources", cfg=os.path.join(TLA, "Resources3.cfg" if ctx.thorough else "Resources.cfg"))
    sim = ctx.generate("Resources", cfg=os.path.join(TLA, "ResourcesSim.cfg"),
                       extra=["-simulate", "num=%d" % (6000 if ctx.thorough else 400), "-depth", "30", "-seed", str(ctx.seed)])
    pick = rnd.sample(g, min(len(g), 12000 if ctx.thorough else 900)) + rnd.sample(sim, min(len(sim), 3000 if ctx.thorough else 200))
    evs = []
    groups = [(None, pick[::2]), ("1", pick[1::2])]
    n = 0
    for debug, hist in groups:
        cases = []
        for x in hist:
            n += 1
            cases.append(dict(id=n, k="res", ops=x["ops"], debug=debug is not None and rnd.random() < .3, conc=rnd.choice([0, 0, 6]),
                              **req(rnd, rnd.choice([None, 1, 2, 3] if debug else [None, 1, 3, 7, 14, 40]))))
        env = {"QRCODE_DEBUG": debug} if debug else None
        ctx.build()
        with futures.ThreadPoolExecutor(4) as ex:     # one history at a time in each process
            for part in ex.map(lambda k: ctx.drive(cases[k::4], par=1, env=env), range(4)):
                evs += part
    ctx.notes["operations"] = sum(len(e.get("obs", [])) for e in evs)
    ctx.log("%d histories driven" % len(evs))
    ctx.validate("TraceResources", evs)
