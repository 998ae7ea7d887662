"""C07 C08 C09 C10 C11: histories of constructions (TraceRequest.tla)."""
import os, random
from .core import check, TLA
from .texts import ALNUM, API, kanji_cps, other_cps, text, force_byte, odd_texts
from .symbol import rows

CP = {"k": None}


class Hist:
    def __init__(self, ctx):
        self.ctx, self.n, self.cases = ctx, 0, []
        self.rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))

    def add(self, steps, share=False):
        self.n += 1
        self.cases.append(dict(id=self.n, k="req", steps=steps, share=share))

    def one(self, raw, opts=(), **kw):
        self.add([step(raw, opts, **kw)])

    def run(self, **kw):
        self.ctx.log("%d histories, %d constructions" % (len(self.cases), sum(len(c["steps"]) for c in self.cases)))
        evs = self.ctx.drive(self.cases, **kw)
        self.ctx.log("driven")
        self.ctx.notes["constructions"] = sum(len(c["steps"]) for c in self.cases)
        self.ctx.validate("TraceRequest", evs)


def step(raw, opts=(), **kw):
    return dict(raw=list(raw), opts=[dict(o=o, n=n) for o, n in opts] if opts and isinstance(opts[0], tuple) else list(opts), **kw)


def representative(rnd, c):
    """Bytes of one character of the given class of GenMode.tla."""
    if c == 1:
        return [48 + rnd.randrange(10)]
    if c == 2:
        return [65 + rnd.randrange(26)]
    if c == 3:
        return [rnd.choice(b" $%*+-./:")]
    if c == 4:
        return list(chr(rnd.choice(kanji_cps())).encode())
    if c == 5:
        return list(chr(rnd.choice(other_cps())).encode())
    if c == 6:
        return list(chr(rnd.choice([0x3042, 0x30A2, 0x3001, 0xFF76, 0x3005])).encode())
    if c == 7:
        return [97 + rnd.randrange(26)]
    if c == 8:
        return list(chr(rnd.randrange(0x80, 0x800)).encode())
    if c == 9:
        return list(chr(rnd.choice([0xFF10 + rnd.randrange(10), 0x0660, 0xFF21])).encode())
    if c == 10:
        return list(chr(rnd.choice([0x1F600, 0x20000, 0x2A6D6, 0x10FFFF])).encode())
    if c == 11:
        return rnd.choice([[0xFF], [0xC0], [0x80], [0xE4], [0xE4, 0xB8], [0xED, 0xA0, 0x80], [0xF0, 0x9F], [0xC0, 0xB0]])
    return [rnd.choice([0, 9, 10, 13, 27, 127, ord(","), ord("_"), ord("@"), ord("["), ord("`"), ord(";"), ord("!"), ord("#")])]


RULE7 = ("texts: every sequence of character classes up to a length (GenMode.tla), every single character of the tested "
         "ranges, long texts with one odd character; distinct = differs in text or options")


@check("C07", "model_checking", RULE7)
def c07(ctx):
    h = Hist(ctx)
    rnd = h.rnd
    for g in ctx.generate("GenMode", cfg=os.path.join(TLA, "GenMode4.cfg" if ctx.thorough else "GenMode.cfg")):
        h.one([b for c in g["txt"] for b in representative(rnd, c)])
    # every single character (a surrogate or an isolated byte is an invalid text, also tried)
    singles = list(range(0, 0x250)) + list(range(0x3000, 0x3100)) + list(range(0x4E00, 0xA000)) + list(range(0xFF00, 0x10000))
    if ctx.thorough:
        singles = list(range(0, 0x10000)) + [rnd.randrange(0x10000, 0x110000) for _ in range(20000)]
    else:
        singles += list(range(0x3400, 0x4E00, 7)) + list(range(0xF900, 0xFB00)) + [rnd.randrange(0x250, 0x110000) for _ in range(1500)]
    B = 24        # constructions per event
    group = []
    for cp in singles:
        raw = list(chr(cp).encode("utf-8", "surrogatepass"))
        group.append(step(raw))
        if len(group) == B:
            h.add(group)
            group = []
    group += [step([b]) for b in range(128, 256)]
    h.add(group)
    # long texts: one odd character anywhere
    for _ in range(1500 if ctx.thorough else 350):
        base = rnd.choice([1, 2, 3, 4, 7])
        n = rnd.choice([2, 3, 5, 17, 60, rnd.randint(1, 400)])
        t = [representative(rnd, base) for _ in range(n)]
        for _ in range(rnd.choice([0, 1, 1, 2])):
            t.insert(rnd.choice([0, len(t), rnd.randint(0, len(t))]), representative(rnd, rnd.randint(1, 12)))
        h.one([b for c in t for b in c], [("ec", rnd.randint(1, 4))])
    # very long ones: one odd character at the end, at the start, around powers of two
    for k in range(700 if ctx.thorough else 110):
        base = (1, 2, 3, 4, 7)[k % 5]
        few = [representative(rnd, base) for _ in range(40)]
        n = rnd.choice([500, 1030, 1500, 2100]) // len(few[0])
        t = [rnd.choice(few) for _ in range(n)]
        at = rnd.choice([0, n - 1, n - 1, n, rnd.randint(0, n)] + [p + rnd.randint(-1, 1) for p in (127, 255, 256, 511, 512, 1023, 1024, 2047, 2048) if p < n - 1])
        if rnd.random() < .9:
            t.insert(at, representative(rnd, rnd.randint(1, 12)))
        h.one([b for c in t for b in c], [("ec", 1)])
    odd = odd_texts(rnd)
    for i in range(0, len(odd), 12):
        h.add([step(raw) for raw in odd[i:i + 12]])
        h.add([step(raw * rnd.randint(2, 9), [("ec", 1)]) for raw in odd[i:i + 12]])
        h.add([step(rnd.choice(odd) + raw) for raw in odd[i:i + 12]])
    # a multiset of characters in many orders
    for _ in range(60 if ctx.thorough else 20):
        cs = [representative(rnd, rnd.randint(1, 12)) for _ in range(rnd.randint(2, 8))]
        st = []
        for _ in range(12):
            rnd.shuffle(cs)
            st.append(step([b for c in cs for b in c]))
        h.add(st)
    h.run()


@check("C08", "model_checking", "for every version, level and mode the lengths around the capacity (GenSymbol.tla), with automatic, minimum and explicit versions")
def c08(ctx):
    h = Hist(ctx)
    rnd = h.rnd
    for r in rows(ctx):
        unit = text(rnd, r["mode"], 3, "ascii")
        mode = [("mode", API[r["mode"]])]
        ec = [("ec", r["lv"])]
        w = 3 if r["mode"] == 8 else 1
        opts = ec + mode
        rnd.shuffle(opts)
        steps = []
        for n in sorted({r["low"], r["cap"], max(r["low"], r["cap"] - 1), rnd.randint(r["low"], r["cap"])}):
            steps.append(lstep(unit, n * w, opts))
        if r["ver"] < 40:
            steps.append(lstep(unit, (r["cap"] + 1) * w, opts))
        for m in {r["ver"] - 1, r["ver"], r["ver"] + 1, rnd.randint(1, 40)}:
            for n in ({r["cap"], r["low"]} if ctx.thorough else {rnd.choice([r["cap"], r["low"]])}):
                if 1 <= m <= 40:
                    steps.append(lstep(unit, n * w, opts + [("min", m)]))
        ex = [v for v in ({r["ver"], rnd.randint(r["ver"], 40)} if not ctx.thorough else range(r["ver"], 41))]
        for v in ex:
            o = opts + [("ver", v)] + ([("min", rnd.randint(1, 40))] if rnd.random() < .5 else [])
            rnd.shuffle(o)
            steps.append(lstep(unit, rnd.choice([r["cap"], r["low"], rnd.randint(r["low"], r["cap"])]) * w, o))
        for i in range(0, len(steps), 6):
            h.add(steps[i:i + 6])
    # automatic mode and default level: characters against bytes
    for _ in range(1500 if ctx.thorough else 250):
        m = rnd.choice((1, 2, 4, 8))
        raw = text(rnd, m, rnd.choice([rnd.randint(0, 60), rnd.randint(0, 700)]), rnd.choice([None, "utf8"]) if m == 4 else None)
        o = []
        if rnd.random() < .4:
            o.append(("min", rnd.randint(-1, 42)))
        if rnd.random() < .4:
            o.append(("ver", rnd.choice([-1, 0, 41, 100, rnd.randint(20, 40)])))
        h.one(raw, o)
    h.run()


def lstep(unit, nbytes, opts):
    """A text of nbytes bytes made by repeating the unit."""
    if nbytes == 0:
        return step([], opts)
    return step(unit, opts, rep=nbytes // len(unit) + 1, n=nbytes)


@check("C09", "model_checking", "lengths around every capacity, unrepresentable characters at every kind of position, unsupported modes and out-of-range settings")
def c09(ctx):
    h = Hist(ctx)
    rnd = h.rnd
    for r in rows(ctx):
        w = 3 if r["mode"] == 8 else 1
        unit = text(rnd, r["mode"], 3, "ascii")
        opts = [("ec", r["lv"]), ("mode", API[r["mode"]])]
        ver = [("ver", r["ver"])]
        st = [lstep(unit, r["cap"] * w, opts + ver), lstep(unit, (r["cap"] + 1) * w, opts + ver),
              lstep(unit, (r["cap"] + 2) * w, opts + ver), lstep(unit, (2 * r["cap"] + 9) * w, opts + ver)]
        if r["ver"] == 40 or ctx.thorough:
            st += [lstep(unit, (r["cap"] + k) * w, opts) for k in (0, 1, 2, 3)]
        if r["ver"] == 40:
            st += [lstep(unit, (r["cap"] + k) * w, opts + [("min", rnd.randint(1, 40))]) for k in (0, 1)]
            st += [lstep(unit, n * w, opts) for n in (10000, 65535, 65536, 65537, 70000)]
            st += [lstep(unit, n * w, opts + ver) for n in (10000, 65536 + 10)]
        h.add(st)
    # representability: one foreign character somewhere, explicit mode
    for _ in range(4000 if ctx.thorough else 900):
        mode = rnd.choice([1, 2, 8, 8, 4])
        t = [text(rnd, mode, 1, "ascii") for _ in range(rnd.choice([0, 1, 2, 3, 10, 40]))]
        if rnd.random() < .75:
            t.insert(rnd.choice([0, len(t), rnd.randint(0, len(t))]), representative(rnd, rnd.randint(1, 12)))
        h.one([b for c in t for b in c], [("mode", API[mode]), ("ec", rnd.randint(1, 4))])
    odd = odd_texts(rnd)
    for i in range(0, len(odd), 12):
        h.add([step(raw, [("mode", m)]) for raw in odd[i:i + 12] for m in (4, 8, 16, 32)] + [step(raw) for raw in odd[i:i + 12]])
    # every single ideograph and every byte in explicit kanji / narrow modes
    cps = list(range(0x4E00, 0xA000)) if ctx.thorough else rnd.sample(range(0x4E00, 0xA000), 1500) + list(range(0x3041, 0x3100, 3))
    for i in range(0, len(cps), 24):
        h.add([step(list(chr(c).encode()), [("mode", 16)]) for c in cps[i:i + 24]])
    for m in (4, 8, 16, 32):
        for lo in range(0, 256, 32):
            h.add([step([b], [("mode", m)]) for b in range(lo, lo + 32)])
    # any mode value at all
    for m in list(range(0, 70)) + [127, 128, 129, 132, 160, 240, 255, 256, 260, 288, 1024, 4096 + 32, 65535]:
        for raw in (b"", b"12", b"A1", "\u4e00".encode(), b"ab"):
            h.one(raw, [("mode", m)])
    # out-of-range settings and automatic mode on arbitrary bytes
    for _ in range(4000 if ctx.thorough else 900):
        raw = [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 2, 3, 7, 20, 100, rnd.randint(0, 1400)]))]
        o = [rnd.choice([("ec", rnd.randint(-3, 8)), ("ver", rnd.randint(-2, 45)), ("min", rnd.randint(-2, 45)),
                         ("ver", rnd.randint(1, 6)), ("mode", rnd.choice([0, 4, 8, 16, 32, 2]))]) for _ in range(rnd.randint(0, 4))]
        h.one(raw, o)
    h.run()


@check("C10", "model_checking", "every option list up to a length over a boundary alphabet (GenOptions.tla), plus histories with shared option objects and option lists")
def c10(ctx):
    h = Hist(ctx)
    rnd = h.rnd
    lists = ctx.generate("GenOptions", cfg=os.path.join(TLA, "GenOptions3.cfg"))
    if not ctx.thorough:
        short = [g for g in lists if len(g["opts"]) <= 2]
        lists = short + rnd.sample([g for g in lists if len(g["opts"]) == 3], 2000)
    pool = [b"12", b"7", b"AB", "\u4e00\u4e01".encode(), b"hello, world", b""]
    for i in range(0, len(lists), 8):
        h.add([step(rnd.choice(pool) if rnd.random() < .5 else b"12", [(o["o"], o["n"]) for o in g["opts"]]) for g in lists[i:i + 8]])
    # histories with shared option objects; repeated keys must give the same symbol
    for _ in range(600 if ctx.thorough else 120):
        objs = [(o, n) for o in ("mode", "ec", "ver", "min")
                for n in rnd.sample({"mode": [0, 4, 8, 16, 32], "ec": [0, 1, 2, 3, 4, 7], "ver": [0, 1, 5, 7, 41, 33], "min": [0, 2, 4, 9, 50]}[o], 3)]
        some = [[rnd.choice(objs) for _ in range(rnd.randint(0, 4))] for _ in range(4)] + [[]]
        texts = [b"12", b"A-1", "\u4e9c\u4e9c".encode(), b"q" * rnd.randint(1, 60), b"9" * rnd.randint(1, 80)]
        st = []
        for _ in range(rnd.randint(8, 20)):
            o = rnd.choice(some)
            st.append(step(rnd.choice(texts), o, new=not o and rnd.random() < .5))
        h.add(st, share=True)
    # texts of every size against minimum versions around and far above what they need
    big = [r for r in rows(ctx) if r["cap"] > 0]
    for _ in range(150 if ctx.thorough else 40):
        st = []
        for _ in range(8):
            r = rnd.choice(big)
            raw = text(rnd, r["mode"], max(1, rnd.choice([r["cap"], r["low"], rnd.randint(min(r["low"], r["cap"]), r["cap"])])))
            o = [("min", rnd.choice([rnd.randint(r["ver"], 40), rnd.randint(1, 40), 40, r["ver"]])), ("ec", r["lv"])]
            if rnd.random() < .3:
                o.append(("ver", rnd.randint(1, 40)))
            if rnd.random() < .3:
                o.append(("mode", API[r["mode"]]))
            rnd.shuffle(o)
            st.append(step(raw, o))
        h.add(st)
    # New without options against NewWith without options
    for _ in range(60):
        raw = text(rnd, rnd.choice((1, 2, 4, 8)), rnd.randint(0, 80))
        h.add([step(raw, new=True), step(raw), step(raw, [("ver", 20)]), step(raw, new=True), step(raw, [("ec", 3)])])
    h.run()


REPS = ["string", "bytes", "mystring", "mystring2", "mybytes", "aliasbytes", "talkstring", "talkbytes", "number", "rawmessage"]


@check("C11", "model_checking", "all ordered choices of representation, with and without spare capacity, options, late mutation of the caller's slice")
def c11(ctx):
    h = Hist(ctx)
    rnd = h.rnd
    for _ in range(1200 if ctx.thorough else 220):
        mode = rnd.choice((1, 2, 4, 4, 8))
        raw = text(rnd, mode, rnd.choice([0, 1, 2, 3, 5, 17, rnd.randint(0, 120), rnd.randint(0, 500)]))
        opts = rnd.choice([[], [], [("ec", rnd.randint(1, 4))], [("mode", 32)], [("mode", API[mode])], [("ver", rnd.randint(30, 40))]])
        st = []
        for a in REPS:
            for late in (False, True) if len(st) < 12 or rnd.random() < .5 else (True,):
                st.append(step(raw, opts, **{"as": a, "late": late, "spare": rnd.choice([0, 1, 8, 64, 4096]),
                                             "new": not opts and rnd.random() < .5}))
        rnd.shuffle(st)
        h.add(st)
    for raw in odd_texts(rnd):
        h.add([step(raw, **{"as": a, "late": a != "string", "spare": rnd.choice([0, 8]), "new": rnd.random() < .5}) for a in rnd.sample(REPS, 4)])
    # at capacity of small versions, where the encoder has to stretch its buffers
    for r in rows(ctx):
        if r["ver"] in ((1, 2, 5, 10, 27, 40) if not ctx.thorough else range(1, 41)) and r["lv"] in (1, 4):
            w = 3 if r["mode"] == 8 else 1
            raw = text(rnd, r["mode"], 3, "ascii")
            o = [("ec", r["lv"]), ("mode", API[r["mode"]])]
            h.add([dict(lstep(raw, r["cap"] * w, o), **{"as": a, "late": a != "string", "spare": 16}) for a in rnd.sample(REPS, 3)])
    h.run()
