"""C18 - C22: the other built-in writers, faulty sinks, output files."""
import os, random
from .core import check, TLA
from .object import req


class Out:
    def __init__(self, ctx):
        self.ctx, self.cases = ctx, []
        self.rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))

    def add(self, k, **kw):
        self.cases.append(dict(id=len(self.cases) + 1, k=k, **kw))

    def run(self, spec, **kw):
        evs = self.ctx.drive(self.cases, **kw)
        self.ctx.log("%d cases driven" % len(evs))
        self.ctx.validate(spec, evs)
        return evs


@check("C18", "model_checking", "all versions of the tier at small block sizes, block sizes 1..40 and paddings 0..60 at small versions; distinct = differs in text, options, block size or padding")
def c18(ctx):
    s = Out(ctx)
    rnd = s.rnd
    for v in range(1, 41):
        for _ in range(8 if ctx.thorough else 1):
            s.add("comp", pad=rnd.choice([0, 1, 2, 5]), block=rnd.choice([1, 1, 2]), prior=rnd.choice([0, 9, 100000]), **req(rnd, v))
    for b in (list(range(1, 129)) if ctx.thorough else list(range(1, 21)) + [31, 32, 40, 64] + rnd.sample(range(21, 300), 6)):
        s.add("comp", pad=rnd.choice([0, 1, b, 3 * b, rnd.randint(0, 60)]), block=b, prior=rnd.choice([0, 50000]), **req(rnd, rnd.choice([1, 1, 2])))
    for p in (list(range(0, 70)) if ctx.thorough else [0, 1, 2, 3, 4, 7, 8, 15, 16, 60] + rnd.sample(range(9, 1200), 5)):
        s.add("comp", pad=p, block=rnd.randint(1, 5), prior=0, **req(rnd, 1))
    for _ in range(4000 if ctx.thorough else 300):
        s.add("comp", pad=rnd.randint(0, 12), block=rnd.randint(1, 7), prior=rnd.choice([0, 0, 30000]), busy=rnd.random() < .3, **req(rnd, rnd.choice([None, 1, 2, 3, 5, 7])))
    s.run("TraceCompressed")


@check("C19", "model_checking", "every history of three steps over GenText.tla's alphabet (saves, own writes, seeks, close, nil file; read-write, append and read-only files) "
       "replayed on a real file, and all versions of the tier; distinct = differs in symbols, prior content or steps")
def c19(ctx):
    s = Out(ctx)
    rnd = s.rnd
    g = ctx.generate("GenText")
    for x in (g if ctx.thorough else rnd.sample(g, min(len(g), 900))):
        s.add("text", syms=[req(rnd, 1), req(rnd, rnd.choice([1, 2]))], prior=x["data"], flag=x["flag"], ops=x["ops"])
    for v in range(1, 41):
        for _ in range(10 if ctx.thorough else 1):
            s.add("text", syms=[req(rnd, v)], prior=[], flag=rnd.choice([0, 1]), ops=[dict(op="save", n=0)])
    for _ in range(3000 if ctx.thorough else 200):
        n = rnd.randint(1, 3)
        ops = [rnd.choice([dict(op="save", n=rnd.randrange(n)), dict(op="save2", n=rnd.randrange(n)), dict(op="write", n=rnd.randint(0, 9)), dict(op="seek", n=rnd.randint(0, 3000))])
               for _ in range(rnd.randint(2, 9))]
        s.add("text", syms=[req(rnd, rnd.choice([None, 1, 2, 3])) for _ in range(n)], prior=[rnd.randrange(256) for _ in range(rnd.choice([0, 5, 2500]))], flag=rnd.choice([0, 0, 1]), ops=ops)
    s.run("TraceText")


def screen(rnd, v):
    """A terminal with room for the symbol of version v, of just its size, or smaller."""
    d = 4 * v + 19
    cols, rows = rnd.choice([(500, 300), (2 * d, d), (2 * d, d + 2), (80, 25), (2 * d + rnd.randint(-30, 30), d + rnd.randint(-15, 15)),
                             (rnd.randint(1, 2 * d), 300), (400, rnd.randint(1, d)), (rnd.randint(1, 400), rnd.randint(1, 200))])
    return dict(cols=cols, rows=rows)


@check("C20", "model_checking", "every script of up to three terminal events, with a working and a failing flush (Terminal.tla), replayed on an in-memory terminal; all versions of the tier; "
       "distinct = differs in text, options or script")
def c20(ctx):
    s = Out(ctx)
    rnd = s.rnd
    g = ctx.generate("Terminal", workers=1)
    for x in g:
        for _ in range(2 if ctx.thorough else 1):
            s.add("term", events=x["events"], kinds=[rnd.randrange(210) for _ in x["events"]], flush=x["flush"], **screen(rnd, 1), **req(rnd, 1))
    for v in range(1, 41):
        for _ in range(4 if ctx.thorough else 1):
            s.add("term", events=["resize"] * rnd.randint(0, 9) + ["key", "key"], kinds=[rnd.randrange(210) for _ in range(11)], flush=rnd.random() < .1, **screen(rnd, v), **req(rnd, v))
    ctx.assumptions.append("the terminal library is replaced by an in-memory stand-in with the same API (harness/termboxstub)")
    s.run("TraceTerminal", par=1)


@check("C21", "model_checking", "every write of every built-in writer fails once in each of four ways (streams), files that stop growing at chosen sizes, failing encoders, closed, full and "
       "uncreatable files; distinct = differs in text, options, writer, sink, failure mode or error value")
def c21(ctx):
    s = Out(ctx)
    rnd = s.rnd
    ctx.refute("SinkFault", "SinkFaultBug.cfg", "unchecked final flush, refuted")
    g = ctx.generate("SinkFault")
    for x in g:
        for v in ([1, 2, 3, 7, 11, 20, 30, 40] if ctx.thorough else [1, rnd.randint(2, 8), rnd.choice([9, 15, 22, 40])]):
            for _ in range(3 if ctx.thorough else 1):
                s.add("sink", err=rnd.randrange(9), max=(600 if ctx.thorough else 60) if x["sink"] == "stream" else (60 if ctx.thorough else 10), **x, **req(rnd, v))
    for what in ("full", "twice", "nodir", "isdir", "empty", "underfile", "long", "nul", "loop", "pipe"):
        for kind in ("jpeg", "png", "comp"):
            s.add("sinkother", what=what, kind=kind, err=0, **req(rnd, rnd.choice([1, 3])))
    for k in range(9):
        s.add("sinkother", what="encoder", kind="", err=k, **req(rnd, 1))
    for what in ("encoder-ok", "textfull", "textreadonly", "textclosed", "textpipe", "textnil"):
        s.add("sinkother", what=what, kind="", err=0, **req(rnd, rnd.choice([1, 4])))
    evs = s.run("TraceSink")
    ctx.notes["faults_injected"] = sum(1 for e in evs for o in e.get("obs", []) if o["failed"])
    ctx.notes["anonymous_files"] = sum(1 for e in evs if e.get("obs") and e["k"] == "sink" and s.cases[e["id"] - 1]["sink"] == "file") or "not available"


@check("C22", "model_checking", "every history of three steps over two names, links included, ending in a save (FileStore.tla) and simulated ones of eight steps; "
       "distinct = differs in symbols or steps")
def c22(ctx):
    s = Out(ctx)
    rnd = s.rnd
    ctx.refute("FileStore", "FileStoreBug.cfg", "no truncation, refuted")
    ctx.refute("FileStore", "FileStoreLate.cfg", "pictures read after truncation, refuted")
    g = ctx.generate("FileStore")
    sim = ctx.generate("FileStore", cfg=os.path.join(TLA, "FileStoreSim.cfg"),
                       extra=["-simulate", "num=%d" % (1500 if ctx.thorough else 150), "-depth", "9", "-seed", str(ctx.seed)])
    lens = {0: ["empty", "minus1"], 3: ["shorter", "equal"], 9: ["longer", "plus1"]}
    for x in rnd.sample(g, min(len(g), 24000 if ctx.thorough else 1100)) + sim:
        ops = [dict(o, len=rnd.choice(lens[o["len"]])) for o in x["ops"]]
        s.add("store", syms=[req(rnd, rnd.choice([1, 2])), req(rnd, rnd.choice([None, 1, 3, 6]))], ops=ops)
    s.run("TraceStore")
