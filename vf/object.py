"""C12 (views of a matrix), C13 (Save)."""
import os, random
from .core import check, TLA
from .texts import API, text
from .request import step


def req(rnd, ver=None):
    mode = rnd.choice((1, 2, 4))
    o = [dict(o="ec", n=rnd.randint(1, 4))]
    if ver:
        o.append(dict(o="ver", n=ver))
    return dict(raw=text(rnd, mode, rnd.randint(0, 7)), opts=o)


@check("C12", "model_checking",
       "histories of view operations and overwrites enumerated by MatrixViews.tla (length 3: 500, thorough 12000 of all; simulated ones of length 9), with concrete "
       "lines and positions incl. out-of-range ones; all views at all versions of the tier; distinct = differs in text, options or operations")
def c12(ctx):
    rnd = random.Random("C12-%d" % ctx.seed)
    ctx.model("MatrixViews", cfg=os.path.join(TLA, "MatrixViews4.cfg"), what="heap model: views own their cells")
    ctx.refute("MatrixViews", "MatrixViewsBug.cfg", "Col aliasing the matrix, refuted")
    ctx.refute("MatrixViews", "MatrixViewsScratch.cfg", "iterations sharing a line buffer, refuted")
    g = ctx.generate("MatrixViews")
    sim = ctx.generate("MatrixViews", cfg=os.path.join(TLA, "MatrixViewsSim.cfg"),
                       extra=["-simulate", "num=%d" % (3000 if ctx.thorough else 200), "-depth", "12", "-seed", str(ctx.seed)])
    cases, i = [], 0

    def add(ops, ver=None):
        nonlocal i
        i += 1
        cases.append(dict(id=i, k="matrix", ops=ops, **req(rnd, ver)))

    def concrete(ops, d):
        r = []
        for o in ops:
            k = o["k"]
            if o["op"] in ("row", "col"):
                k = rnd.choice([0, d - 1, rnd.randrange(d), rnd.randrange(d), 6, 8])
            r.append(dict(op=o["op"], m=o["m"], k=k, p=rnd.choice([-1, 0, rnd.randrange(d), rnd.randrange(d * d)])))
            if rnd.random() < .1:
                r.append(dict(op=rnd.choice(["row", "col"]), m=o["m"] if o["op"] != "mutate" else 0, k=rnd.choice([-2, 1000, 1001, 100000]), p=0))
        return r
    g = rnd.sample(g, min(len(g), 12000 if ctx.thorough else 500))
    sim = sim if ctx.thorough else rnd.sample(sim, min(len(sim), 250))
    for x in g:
        add(concrete(x["ops"], 21), 1)
    for x in sim:
        v = rnd.choice([1, 1, 2, 3, 7, 7, 11, 17, rnd.randint(1, 40) if ctx.thorough else 16])
        add(concrete(x["ops"], 4 * v + 17), v)
    for v in range(1, 41):       # read, overwrite, read again at every size
        d = 4 * v + 17
        k, j = rnd.randrange(d), rnd.randrange(d)
        o = lambda op, m=0, k=0: dict(op=op, m=m, k=k, p=-1)
        ops = [o("row", k=k), o("mutate", 1), o("row", k=k), o("col", k=j), o("mutate", 3), o("col", k=j), o("row", k=k)]
        if v <= 12 or v % 3 == 1:
            ops += [o("bitmap"), o("mutate", 6), o("bitmap")]
        add(ops + [o("save")], v)
    vers = range(1, 41)
    for v in vers:
        d = 4 * v + 17
        ops = [dict(op=o, m=0, k=0, p=0) for o in ("iterrow", "bitmap", "copy", "itercol")]
        for k in (range(d) if v <= 7 or ctx.thorough else [0, 1, 6, 8, d - 1, d - 8]):
            ops += [dict(op="row", m=0, k=k, p=0), dict(op="col", m=rnd.randint(0, 1), k=k, p=0)]
        for k in (-2, 1000, 1001, 100000):
            ops += [dict(op="row", m=0, k=k, p=0), dict(op="col", m=0, k=k, p=0)]
        ops += [dict(op="mutate", m=m, k=0, p=-1) for m in (1, 3, 4, 5)] + [dict(op="save", m=0, k=0, p=0), dict(op="itercol", m=0, k=0, p=0)]
        add(ops, v)
    ctx.notes["operations"] = ctx.judge("TraceMatrix", cases, 1500)


@check("C13", "model_checking",
       "every sequence of three Saves over {no writer, writer 1, writer 2} x outcomes of Write and Close (SaveLifecycle.tla), with 16 concrete "
       "error values, re-entrant and scribbling writers; longer random sequences; distinct = differs in text, options or sequence")
def c13(ctx):
    rnd = random.Random("C13-%d" % ctx.seed)
    ctx.refute("SaveLifecycle", "SaveLifecycleBug.cfg", "no Close after a panic, refuted")
    g = ctx.generate("SaveLifecycle")
    cases = []

    def conc(saves):
        r = []
        for s in saves:
            r.append(dict(w=s["w"], werr=(0, rnd.randint(1, 16), 17)[s["werr"]], other=rnd.random() < .3, cerr=s["cerr"] and rnd.randint(1, 16),
                          nest=s["w"] > 0 and rnd.random() < .15, scribble=s["w"] > 0 and rnd.random() < .3))
        return r
    for x in g:
        for _ in range(30 if ctx.thorough else 3):
            cases.append(dict(id=len(cases) + 1, k="save", saves=conc(x["saves"]), **req(rnd, rnd.choice([None, None, 1, 5, 7]))))
    for we in range(0, 18):
        for ce in range(0, 17):
            cases.append(dict(id=len(cases) + 1, k="save", saves=[dict(w=1, werr=we, cerr=ce, nest=False, scribble=False, other=True)], **req(rnd)))
    for _ in range(6000 if ctx.thorough else 500):
        n = rnd.randint(4, 25)
        sv = conc([dict(w=w, werr=w and rnd.choice([0, 0, 0, 1, 1, 2]), cerr=w and rnd.choice([0, 0, 1])) for w in [rnd.randint(0, 5) for _ in range(n)]])
        cases.append(dict(id=len(cases) + 1, k="save", saves=sv, **req(rnd, rnd.choice([None, 2, 7, 20, 40]))))
    evs = ctx.drive(cases)
    ctx.notes["saves"] = sum(len(c["saves"]) for c in cases)
    ctx.validate("TraceSave", evs)
