"""C01 C02 C03 C04 C05 C26: what a standard reader finds in a finished symbol (TraceSymbol.tla)."""
import random
from .core import check
from .texts import ALNUM, API, kanji_cps, text, force_byte, auto_ok, odd_texts

RULE = ("one case per <version, level, mode, text length class> enumerated by GenSymbol.tla plus systematic texts; "
        "a case is non-trivial when it differs from every other in text, options or both")


class Maker:
    def __init__(self, ctx):
        self.ctx, self.n, self.cases, self.version = ctx, 0, [], {}
        self.rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))

    def add(self, raw, opts, k="sym", **kw):
        self.n += 1
        self.cases.append(dict(id=self.n, k=k, raw=list(raw), opts=opts, **kw))

    def row(self, r, n, style=None, how=None):
        """A text of n characters for the row's version, level and mode, asked for in one of several ways."""
        rnd = self.rnd
        raw = text(rnd, r["mode"], n, style)
        how = how or rnd.choice(["all", "auto", "mode", "ver"])
        opts = [dict(o="ec", n=r["lv"])]
        if how in ("all", "mode") or (r["mode"] == 4 and n == 0) or (r["mode"] != 1 and n == 0):
            opts.append(dict(o="mode", n=API[r["mode"]]))
        elif r["mode"] == 4:
            raw = force_byte(rnd, raw)
        if how in ("all", "ver") or n < r["low"]:
            opts.append(dict(o="ver", n=r["ver"]))
        rnd.shuffle(opts)
        self.add(raw, opts)
        self.version[self.n] = r["ver"]


def rows(ctx):
    return ctx.generate("GenSymbol")


def histories(mk, share=.3):
    """Some symbols are made after others, or saved after others were made: what they show must not depend on it."""
    rnd, cs = mk.rnd, mk.cases
    short = [c for c in cs if len(c["raw"]) <= 60] or cs

    def swap(c, **kw):
        return [x for x in c["opts"] if x["o"] not in kw] + [dict(o=o, n=n) for o, n in kw.items()]

    def near(c):
        how = rnd.choice("same level level version both both other any any refused invalid".split())
        raw, opts = c["raw"], c["opts"]
        if how == "level":
            opts = swap(c, ec=rnd.randint(1, 4))
        elif how == "version":
            opts = swap(c, ver=min(40, max([x["n"] for x in opts if x["o"] == "ver"] + [1]) + rnd.randint(0, 2)))
        elif how == "both":
            opts = [dict(o="ec", n=rnd.randint(1, 4))] + ([dict(o="ver", n=rnd.choice((1, 2, 3, 5, 9, 10, 27, rnd.randint(1, 40))))] if rnd.random() < .6 else []) + ([dict(o="mode", n=32)] if rnd.random() < .2 else [])
        elif how == "other":
            raw = raw[:-1] + [48 + rnd.randrange(10)]
        elif how == "refused":
            raw, opts = [113] * 3000, [dict(o="ec", n=rnd.randint(1, 4))]
        elif how == "invalid":
            raw, opts = [97, 98], [dict(o="mode", n=rnd.choice((1, 2, 3)) * 8)]
        elif how == "any":
            d = rnd.choice(short if len(raw) > 300 or rnd.random() < .8 else cs)
            raw, opts = d["raw"], d["opts"]
        return dict(raw=raw, opts=opts)
    for c in cs:
        if rnd.random() < share:
            c["pre"] = [near(c) for _ in range(rnd.choice((1, 1, 2)))]
        if rnd.random() < share / 2:
            c["mid"] = [near(c)]


def pairs(mk, share=.8):
    """Most symbols are made right after one of another version and level: every pair of versions in turn."""
    rnd, turn = mk.rnd, {}
    for c in mk.cases:
        v = mk.version.get(c["id"], 0)
        if v not in turn or not turn[v]:
            turn[v] = rnd.sample(range(1, 41), 40)
        if rnd.random() < share:
            c["pre"] = [dict(raw=[48 + rnd.randrange(10), 113], opts=[dict(o="ver", n=turn[v].pop()), dict(o="ec", n=rnd.randint(1, 4))])]


def run(ctx, mk, module="TraceSymbol"):
    histories(mk)
    if ctx.prop in ("C03", "C04"):
        pairs(mk, .9 if ctx.prop == "C04" else .5)
    ctx.log("%d cases" % len(mk.cases))
    evs = ctx.drive(mk.cases)
    ctx.log("driven")
    ctx.validate(module, evs)


def systematic(mk):
    """All pairs of alphanumerics, all triples of digits, all bytes, all kanji."""
    big = [dict(o="ec", n=1)]
    mk.add([c for a in ALNUM for b in ALNUM for c in (a, b)], big)
    mk.add([ord(c) for i in range(1000) for c in "%03d" % i], big)
    mk.add([ord(c) for i in range(100) for c in "%02d" % i] + [ord("7")], big)
    mk.add(list(range(256)), big)
    mk.add(list(range(255, -1, -1)), big + [dict(o="mode", n=32)])
    ks = kanji_cps()
    for i in range(0, len(ks), 1800):
        mk.add("".join(map(chr, ks[i:i + 1800])).encode(), big)
    for raw in odd_texts():
        mk.add(raw, [dict(o="ec", n=mk.rnd.randint(1, 4))] if mk.rnd.random() < .5 else [])
        mk.add(raw, [dict(o="mode", n=32), dict(o=mk.rnd.choice(("ver", "min")), n=mk.rnd.choice((3, 5, 9, 10, 26, 27)))])
    for c in range(10):
        mk.add([48 + c], [])
    for c in ALNUM:
        mk.add([c], [])


@check("C01", "model_checking", RULE)
def c01(ctx):
    mk = Maker(ctx)
    rs = rows(ctx)
    systematic(mk)
    for r in rs:
        mk.row(r, r["cap"])
        mk.row(r, mk.rnd.randint(0, r["cap"]))
        small = r["ver"] <= (40 if ctx.thorough else 6)
        if small:
            for n in {r["cap"] - 1, r["cap"] - 2, r["cap"] - 3, r["low"], r["low"] + 1}:
                if 0 <= n <= r["cap"]:
                    mk.row(r, n)
        if ctx.thorough:
            for _ in range(6):
                mk.row(r, mk.rnd.randint(0, r["cap"]))
    for mode in (1, 2, 4, 8):        # every short length
        for n in range(0, 130 if ctx.thorough else 40):
            mk.add(text(mk.rnd, mode, n), [dict(o="mode", n=API[mode]), dict(o="ec", n=1 + n % 4)])
    run(ctx, mk)


@check("C02", "model_checking", RULE)
def c02(ctx):
    mk = Maker(ctx)
    for r in rows(ctx):
        if (r["mode"] == 1 + r["lv"] % 2 and r["ver"] % 2 == 0) or r["mode"] == 4 or ctx.thorough:
            mk.row(r, r["cap"])
        if r["mode"] == 4:
            for style in (("zero", "ff") + 8 * ("almost",) if ctx.thorough else (mk.rnd.choice(("zero", "ff")),) + (("almost",) if r["ver"] > 5 else ())):
                mk.row(r, r["cap"], style, how="ver")
            for _ in range(12 if ctx.thorough else 1 if r["ver"] <= 20 else 0):
                mk.row(r, mk.rnd.randint(0, r["cap"]))
    for n in range(400 if ctx.thorough else 100):       # default level and version
        mk.add(text(mk.rnd, mk.rnd.choice((1, 2, 4)), mk.rnd.randint(0, 300)), [])
    run(ctx, mk)


@check("C03", "model_checking", RULE)
def c03(ctx):
    mk = Maker(ctx)
    for r in rows(ctx):
        mk.row(r, r["cap"])
        mk.row(r, r["low"])
        for _ in range(6 if ctx.thorough else 1):
            mk.row(r, mk.rnd.randint(0, r["cap"]))
        if r["mode"] == 4:
            mk.row(r, 0, how="all")
            mk.row(r, r["cap"], "zero", how="ver")
            mk.row(r, r["cap"], "ff", how="ver")
    run(ctx, mk)


@check("C04", "model_checking", RULE)
def c04(ctx):
    mk = Maker(ctx)
    for r in rows(ctx):
        mk.row(r, mk.rnd.randint(r["low"], r["cap"]))
        if r["ver"] <= 10 or ctx.thorough:
            for _ in range(3):
                mk.row(r, mk.rnd.randint(0, r["cap"]))
    for _ in range(2000 if ctx.thorough else 400):      # default level, invalid settings, several settings
        opts = [dict(o=mk.rnd.choice(("ec", "ec", "ver", "min")), n=mk.rnd.randint(-1, 6)) for _ in range(mk.rnd.randint(0, 3))]
        mk.add(text(mk.rnd, mk.rnd.choice((1, 2, 4)), mk.rnd.randint(0, 9)), opts)
    run(ctx, mk)


@check("C05", "model_checking", RULE)
def c05(ctx):
    mk = Maker(ctx)
    for r in rows(ctx):
        if r["mode"] == (1, 2, 4, 8)[(r["ver"] + r["lv"]) % 4] or ctx.thorough:
            mk.row(r, mk.rnd.randint(r["cap"] * 4 // 5 if r["ver"] > 12 and mk.rnd.random() < .9 else 0, r["cap"]))
        if r["ver"] <= 4:
            mk.row(r, r["cap"])
            mk.row(r, r["low"])
    for _ in range(20000 if ctx.thorough else 2000):
        lv = mk.rnd.randint(1, 4)
        mk.add(text(mk.rnd, mk.rnd.choice((1, 2, 4)), mk.rnd.randint(0, 12)), [dict(o="ec", n=lv)])
    before = len(mk.cases)
    # texts for which the balance of dark and light modules decides
    try:
        found = [m for e in ctx.drive([dict(id=3000000 + k, k="balance", seed=mk.rnd.randrange(1 << 30), tries=4000 if ctx.thorough else 250)
                                       for k in range(32)]) for m in e.get("found", [])]
    except Exception as e:
        ctx.log("no search for the balance: %s" % str(e)[:200])
        found = []
    beside = [m for m in found if m["kind"] == 2]
    for m in beside[:1200 if ctx.thorough else 250] + [m for m in found if m["kind"] == 1][:600 if ctx.thorough else 100]:
        mk.add(bytes(m["raw"]), [dict(o="ec", n=m["ec"]), dict(o="ver", n=m["ver"])])
    ctx.notes["beside_five_percent"] = len(beside)
    # most texts are rearranged so that the two best masks are close to each other
    pick = [c for c in mk.cases[:before] if len(c["raw"]) > 2 and mk.rnd.random() < .9]
    try:
        near = ctx.drive([dict(c, id=c["id"] + 1000000, k="near", seed=mk.rnd.randrange(1 << 30), tries=(400 if ctx.thorough else 150) if len(c["raw"]) > 100 else 15, enough=mk.rnd.choice((0, -1, -1))) for c in pick])
    except Exception as e:                         # texts stay as they are
        ctx.log("no search for close masks: %s" % str(e)[:200])
        near = []
    by = {e["id"]: e for e in near if e.get("known")}
    for c in mk.cases:
        if c["id"] + 1000000 in by:
            c["raw"] = by[c["id"] + 1000000]["raw"]
    ctx.notes["close_masks"] = len(by)
    ctx.notes["ties"] = sum(1 for e in by.values() if e["gap"] <= 0)
    run(ctx, mk)


@check("C26", "model_checking", RULE)
def c26(ctx):
    mk = Maker(ctx)
    for r in rows(ctx):
        near = range(0, 12) if ctx.thorough else (0, mk.rnd.randint(1, 5)) if r["ver"] <= 20 else (mk.rnd.randint(0, 5),)
        if r["ver"] <= 8:
            near = range(0, 6)
        for d in near:
            if r["cap"] >= d:
                mk.row(r, r["cap"] - d)
        if ctx.thorough or r["ver"] <= 20:
            mk.row(r, r["low"])
            for _ in range(6 if ctx.thorough else 1):
                mk.row(r, mk.rnd.randint(0, r["cap"]))
    for mode in (1, 2, 4, 8):
        for n in range(0, 60 if ctx.thorough else 20):
            mk.add(text(mk.rnd, mode, n), [dict(o="mode", n=API[mode]), dict(o="ec", n=1 + n % 4)])
    run(ctx, mk)
