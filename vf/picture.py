"""C14 - C17: pictures of the standard writer."""
import os, random
from .core import check, TLA
from .object import req

SHAPES = ["liquid", "hstripe", "vstripe", "chain", "vchain", "hchain", "square", "circle"]


class Std:
    def __init__(self, ctx):
        self.ctx, self.cases = ctx, []
        self.rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))

    def add(self, img, ver=None, **kw):
        c = dict(id=len(self.cases) + 1, k="std", img=img, runs=True, busy=self.rnd.random() < .1, **req(self.rnd, ver))
        bw = next((x["n"] for x in reversed(img) if x["o"] == "width"), 20)
        if bw * (4 * (ver or 1) + 17) < 900 and self.rnd.random() < .35:
            c["pre"] = self.rnd.choice(["width", "symbol", "both"])
        c.update(kw)
        self.cases.append(c)

    def run(self):
        evs = self.ctx.drive(self.cases)
        self.ctx.log("%d pictures drawn" % len(evs))
        self.ctx.notes["pixels"] = sum(e.get("attr", [0, 0])[0] * e.get("attr", [0, 0])[1] for e in evs)
        self.ctx.validate("TraceImage", evs)


def o(kind, **kw):
    return dict(o=kind, **kw)


def colour(rnd, alpha=255):
    return [rnd.randrange(256), rnd.randrange(256), rnd.randrange(256), alpha]


def hexc(rnd, short=None):
    n = 3 if (rnd.random() < .5 if short is None else short) else 6
    return "#" + "".join(rnd.choice("0123456789abcdefABCDEF") for _ in range(n))


def colours(rnd):
    """Distinct foreground and background, in any of the ways to give them."""
    r = []
    for kind in ("fg", "bg"):
        x = rnd.random()
        if x < .3:
            r.append(o(kind + "hex", x=hexc(rnd)))
        elif x < .6:
            r.append(o(kind, t=rnd.choice(["rgba", "nrgba", "ptr"]), c=colour(rnd)))
        elif x < .7:
            g = rnd.randrange(256)
            r.append(o(kind, t="gray", c=[g, g, g, 255]))
    return r


def border(rnd, lo=0, hi=30):
    n = rnd.choice([1, 2, 4, 4])
    return o("border", l=[rnd.randint(lo, hi) for _ in range(n)])


@check("C14", "model_checking",
       "every option list of up to 2 (quick, sampled beyond) or 3 options emitted by GenImage.tla, simulated longer lists, all block widths of the tier, "
       "all versions of the tier, random colours and borders; distinct = differs in text, encoding or image options")
def c14(ctx):
    s = Std(ctx)
    rnd = s.rnd
    lists = ctx.generate("GenImage")
    sim = ctx.generate("GenImage", cfg=os.path.join(TLA, "GenImageSim.cfg"),
                       extra=["-simulate", "num=%d" % (600 if ctx.thorough else 40), "-depth", "10", "-seed", str(ctx.seed)])
    if not ctx.thorough:
        lists = [x for x in lists if len(x["opts"]) <= 1] + rnd.sample([x for x in lists if len(x["opts"]) > 1], 260)
    sim = [x for x in sim if len(x["opts"]) > 3]
    for x in lists + rnd.sample(sim, min(len(sim), 1500 if ctx.thorough else 60)):
        s.add([{k: v for k, v in y.items() if k != "hex"} for y in x["opts"]], 1, files=True)
    # every block width; pictures as JPEG with default colours
    for bw in (range(1, 256) if ctx.thorough else sorted({1, 2, 3, 4, 5, 7, 8, 12, 16, 20, 31, 64, 100, 127, 128, 200, 254, 255} | set(rnd.sample(range(6, 250), 8)))):
        s.add([o("width", n=bw)] + ([border(rnd)] if rnd.random() < .7 else []) + ([o("transparent")] if rnd.random() < .4 else []), rnd.choice([1, 1, 2]), files=bw < 40 or bw % 64 == 0, lum=bw < 40)
    # as JPEG under a halftone picture too
    for k in range(60 if ctx.thorough else 8):
        bw = 3 * rnd.randint(8, 12)
        l = [o("width", n=bw), border(rnd, 0, 40), half(rnd, n=rnd.randint(0, 60), l=[63, 0, 0])]
        if k % 4 < 3:
            l.append(o("transparent"))
        if k % 2:
            l.append(o("enc", t="jpeg"))
        rnd.shuffle(l)
        s.add(l, 1, files=True, lum=True)
    # every version
    for v in (range(1, 41) if ctx.thorough else sorted({2, 3, 5, 6, 7, 10, 22, 40} | set(rnd.sample(range(8, 40), 3)))):
        s.add([o("width", n=rnd.randint(1, 3)), border(rnd, 0, 12)] + colours(rnd), v, files=True)
    # colours, borders, transparency in any order
    for _ in range(800 if ctx.thorough else 120):
        l = colours(rnd) + [o("width", n=rnd.randint(1, 9))]
        if rnd.random() < .9:
            l.append(border(rnd, 0, rnd.choice([3, 30, 90])))
        if rnd.random() < .3:
            l.append(o("transparent"))
        if rnd.random() < .5:
            l.append(o("enc", t=rnd.choice(["png", "jpeg", "nil"])))
        rnd.shuffle(l)
        s.add(l, rnd.choice([1, 1, 2, 3, 7]), files=True)
    # borders far wider than the symbol
    for _ in range(60 if ctx.thorough else 12):
        w = [rnd.choice([0, 1, 255, 256, 300, rnd.randint(0, 700), rnd.randint(0, 40)]) for _ in range(rnd.choice([1, 2, 4, 4]))]
        l = [o("width", n=rnd.choice([1, 1, 2])), o("border", l=w)] + colours(rnd) + ([o("transparent")] if rnd.random() < .3 else [])
        rnd.shuffle(l)
        s.add(l, rnd.choice([1, 1, 2]), files=True)
    # pictures given to the options
    for k in range(120 if ctx.thorough else 16):
        bw = rnd.choice([3, 6])
        l = [o("width", n=bw), border(rnd, 0, 9), o("mult", n=rnd.choice([1, 5]))]
        l.append(o("logo", l=[rnd.randint(1, 12), rnd.randint(1, 12), rnd.choice([0, -3, 11]), rnd.choice([0, 5, -20])], n=rnd.choice([0, 1]),
                   x=["", "nrgba", "plain", "sub", "rgba64", "nrgba64"][k % 6]))
        if rnd.random() < .5:
            l.append(half(rnd, n=rnd.randint(0, 60), l=[63, rnd.choice([0, 4]), rnd.choice([0, -2])]))
        rnd.shuffle(l)
        s.add(l, 1)
    s.run()


def shape_of(rnd, bw):
    """Some predefined shape, large enough to be seen at the centre of a block."""
    blk = rnd.choice(SHAPES + ["CIRCLE"])
    if blk == "CIRCLE":
        return o("circle")
    n = 100
    if blk in ("square", "circle"):
        n = rnd.choice([k for k in list(range(10, 101)) + [5, 150, 100] if (k if 10 <= k <= 100 else 100) * bw >= 300])
    elif blk in ("hstripe", "vstripe"):
        n = rnd.choice([k for k in list(range(60, 101)) + [10, 120, 100] if (k if 60 <= k <= 100 else 85) * bw >= 300])
    return o("shape", x=rnd.choice(["square", "rounded"]), y=blk, n=n)


@check("C15", "model_checking",
       "all 2 x 8 finder/block shapes and the circle at the block widths of the tier, sizes and ratios; recorded custom shapes on random symbols; "
       "distinct = differs in text, encoding or image options")
def c15(ctx):
    s = Std(ctx)
    rnd = s.rnd
    widths = list(range(3, 41)) + [51, 64, 100] if ctx.thorough else [3, 4, 5, 6, 8, 11, 16, 20]
    for bw in widths:
        for blk in SHAPES + ["CIRCLE"]:
            for fin in (["square", "rounded"] if ctx.thorough or bw < 6 else [rnd.choice(["square", "rounded"])]):
                l = [o("width", n=bw), border(rnd, bw, bw + 9)] if rnd.random() < .8 else [o("width", n=bw), border(rnd, 0, bw)]
                if rnd.random() < .5:
                    l += colours(rnd)
                if rnd.random() < .25:
                    l.append(o("transparent"))
                if blk == "CIRCLE":
                    l.append(o("circle"))
                else:
                    n = 100
                    if blk in ("square", "circle"):
                        n = rnd.choice([k for k in (10, 30, 50, 55, 75, 90, 99, 100, 5, 150) if (k if 10 <= k <= 100 else 100) * bw >= 300])
                    elif blk in ("hstripe", "vstripe"):
                        n = rnd.choice([k for k in (60, 61, 70, 85, 99, 100, 10, 120) if (k if 60 <= k <= 100 else 85) * bw >= 300])
                    l.append(o("shape", x=fin, y=blk, n=n))
                rnd.shuffle(l)
                s.add(l, rnd.choice([1, 1, 2]) if bw > 8 else rnd.choice([1, 2, 3, 7]))
    for bw in (1, 2):
        for _ in range(40 if ctx.thorough else 4):
            l = [o("width", n=bw), border(rnd, bw, bw + 9), o("circle")] + (colours(rnd) if rnd.random() < .5 else []) + ([o("transparent")] if rnd.random() < .5 else [])
            rnd.shuffle(l)
            s.add(l, rnd.choice([1, 2, 7, 14]))
    # large blocks, large symbols: centres and borders only
    for k in range(400 if ctx.thorough else 44):
        v, bw = rnd.choice([1, 1, 1, 2, 3, 7]), rnd.choice([rnd.randint(21, 60), rnd.randint(3, 60), rnd.randint(61, 128 if k % 4 else 255)])
        if k % 3 == 0:
            v, bw = rnd.randint(4, 40), rnd.randint(3, 12)
        l = [o("width", n=bw), border(rnd, bw, bw + 9), shape_of(rnd, bw)]
        if rnd.random() < .5:
            l += colours(rnd)
        if rnd.random() < .25:
            l.append(o("transparent"))
        rnd.shuffle(l)
        s.add(l, v, runs=False, sparse=True)
    for bw in ([rnd.randint(100, 255) for _ in range(60)] if ctx.thorough else []) + [127, 128, 129, 253, 254, 255]:
        for blk in [o("circle"), shape_of(rnd, bw)]:
            l = [o("width", n=bw), border(rnd, bw, 255), blk] + (colours(rnd) if rnd.random() < .5 else [])
            rnd.shuffle(l)
            s.add(l, 1, runs=False, sparse=True)
    for v in ([None] * 200 + list(range(1, 41)) if ctx.thorough else [None] * 24 + [1, 2, 6, 7, 14, 40] + rnd.sample(range(15, 40), 7)):
        l = [o("width", n=rnd.choice([1, 2, 3, 7]) if (v or 1) < 10 else 1), o("rec")] + colours(rnd)
        if rnd.random() < .8:
            l.append(border(rnd))
        if rnd.random() < .3:
            l.append(o("transparent"))
        rnd.shuffle(l)
        s.add(l, v)
    s.run()


@check("C16", "model_checking",
       "logos at and around the size limit for the multipliers of the tier, all parities of the remaining space, origins other than (0, 0), holes, "
       "safe zone with recorded neighbours; distinct = differs in text, encoding or image options")
def c16(ctx):
    s = Std(ctx)
    rnd = s.rnd

    def logo(w, h, **kw):
        m = [rnd.choice([0, 0, -3, 11]), rnd.choice([0, 0, 5, -20])]
        n = kw.get("n", rnd.choice([0, 0, 1, 1, 2, 3]))
        kw = dict(kw, c=rnd.choice([[0, 0, 0, 255], [255, 255, 255, 255], colour(rnd)])) if n == 3 else kw
        x = rnd.choice(["", "", "plain", "sub", "rgba64"] + ([] if n == 2 else ["nrgba", "nrgba64"]))
        return o("logo", **dict(dict(l=[w, h] + m, n=n, x=x), **kw))
    # at the limit
    for mult in (list(range(1, 31)) + [None] if ctx.thorough else [None, 1, 2, 3, 4, 5, 7, rnd.randint(8, 60)]):
        for k in range(60 if ctx.thorough else 10):
            v = rnd.choice([1, 1, 2, 3])
            bw = rnd.randint(1, 6)
            b = [rnd.randint(0, 9) for _ in range(4)]
            W, H = (4 * v + 17) * bw + b[1] + b[3], (4 * v + 17) * bw + b[0] + b[2]
            m = mult or 5
            lw, lh = W // m + rnd.choice([0, 0, 0, 1, -1]), H // m + rnd.choice([0, 0, 0, 1, -1])
            if rnd.random() < .3:
                lw = rnd.randint(1, max(1, lw))
            if rnd.random() < .3:
                lh = rnd.randint(1, max(1, lh))
            lw, lh = max(1, min(lw, 250)), max(1, min(lh, 250))
            # a width that the multiplier divides
            if k % 2 == 0:
                b[1] += (-W) % m
                b[0] += (-H) % m
                W, H = (4 * v + 17) * bw + b[1] + b[3], (4 * v + 17) * bw + b[0] + b[2]
                lw, lh = min(250, W // m + rnd.choice([0, 0, 1])), min(250, H // m + rnd.choice([0, 0, 1]))
            l = [o("width", n=bw), o("border", l=b), logo(lw, lh)] + ([o("mult", n=mult)] if mult else [])
            if rnd.random() < .6:
                l.append(o("safe"))
            if rnd.random() < .6:
                l.append(o("rec"))
            if rnd.random() < .3:
                l.append(o("transparent"))
            if rnd.random() < .4:
                l += colours(rnd)
            rnd.shuffle(l)
            s.add(l, v)
    # large pictures with large logos
    for k in range(40 if ctx.thorough else 6):
        v, bw, m = rnd.choice([1, 2, 5]), rnd.randint(8, 60), rnd.choice([1, 2, 3, 4])
        b = [rnd.randint(0, 90) for _ in range(4)]
        W, H = (4 * v + 17) * bw + b[1] + b[3], (4 * v + 17) * bw + b[0] + b[2]
        lw, lh = W // m + rnd.choice([0, 0, 0, 1]), H // m + rnd.choice([0, 0, 0, 1])
        if rnd.random() < .5:
            lw, lh = (rnd.randint(1, lw), lh) if rnd.random() < .5 else (lw, rnd.randint(1, lh))
        l = [o("width", n=bw), o("border", l=b), logo(lw, lh, n=rnd.choice([0, 1])), o("mult", n=m)] + ([o("safe")] if rnd.random() < .6 else [])
        rnd.shuffle(l)
        s.add(l, v)
    # small logos aligned to and straddling module edges
    for k in range(500 if ctx.thorough else 60):
        v = rnd.choice([1, 2, 7])
        bw = rnd.choice([1, 2, 3, 4, 5, 8])
        l = [o("width", n=bw), border(rnd, 0, 25), logo(rnd.randint(1, 4 * bw + 1), rnd.randint(1, 4 * bw + 1)), o("mult", n=rnd.choice([1, 2])), o("safe"), o("rec")]
        rnd.shuffle(l)
        s.add(l, v)
    # the block width that is meant by none, and by 0
    for k in range(24 if ctx.thorough else 4):
        l = [o("width", n=0)] * (k % 2) + [border(rnd, 0, 25), logo(rnd.randint(1, 81), rnd.randint(1, 81)), o("mult", n=1), o("safe"), o("rec")]
        rnd.shuffle(l)
        s.add(l, 1)
    # flat and high logos: far longer than wide
    for k in range(400 if ctx.thorough else 72):
        v, bw = rnd.choice([1, 1, 1, 1, 2]), rnd.choice([2, 3, 4, 5, 7, 8, 11])
        side = (4 * v + 17) * bw
        a, b = rnd.choice([side, side - rnd.randint(0, side // 2), rnd.randint(1, side)]), rnd.choice([1, 1, 2, bw - 1, bw, bw + 1, rnd.randint(1, bw), rnd.randint(1, bw), rnd.randint(1, 2 * bw + 1)])
        a, b = min(a, 250), min(b, 250)
        l = [o("width", n=bw), o("border", l=[rnd.randint(0, 25) for _ in range(4)]), logo(*((a, b) if k % 2 else (b, a))), o("mult", n=1), o("safe"), o("rec")] + (colours(rnd) if k % 3 == 0 else [])
        rnd.shuffle(l)
        s.add(l, v)
    # multipliers beyond every picture
    for k in range(36 if ctx.thorough else 18):
        l = [o("width", n=rnd.choice([1, 4, 20])), border(rnd), logo(rnd.choice([1, 2, 3, 4, 8, 16, rnd.randint(1, 60)]), rnd.choice([1, 2, 4, 8, 16])), o("mult", n=1000000, t="huge", l=[k])]
        if rnd.random() < .5:
            l.append(o("safe"))
        rnd.shuffle(l)
        s.add(l, 1)
    # where the picture comes from
    for t in ("png", "jpeg", "missing", "notpng", "nil"):
        for k in range(4):
            l = [o("width", n=rnd.choice([3, 5])), border(rnd)]
            if k % 2 and t in ("missing", "notpng", "nil"):
                l.append(logo(9, 11))
            l.append(o("logo", t=t, n=0, l=[16, 16, 0, 0]))
            l += [o("mult", n=2)] + ([o("safe")] if k > 1 else [])
            s.add(l, 1)
    s.run()


def half(rnd, n, l):
    """A halftone picture, given as one of the types of image or as a file."""
    t = rnd.choice(["", "", "", "file"])
    x = rnd.choice(["", "", "sub", "nrgba", "rgba64", "nrgba64", "gray", "gray16", "cmyk", "two", "owt", "paletted"] + (["plain", "ycbcr"] if t == "" else []))
    if rnd.random() < .08 and l[0] <= 111:
        t, x, l = "jpeg", rnd.choice(["", "gray"]), l[:1] + [0, 0, 8, 8]
    return o("halftone", t=t, x=x, y=rnd.choice(["", "", "tint"]), n=n, l=l)


@check("C17", "model_checking",
       "halftone pictures (per-sub-block and uniform) at block widths divisible by 3; gradients at integer directions with 1 to 5 stops, with and "
       "without anti-aliased shapes and transparency; distinct = differs in text, encoding or image options")
def c17(ctx):
    s = Std(ctx)
    rnd = s.rnd
    for k in range(600 if ctx.thorough else 70):
        v = rnd.choice([1, 2, 3, 7])
        d = 4 * v + 17
        bw = rnd.choice([3, 3, 6, 9, 12, 15, 3 * rnd.randint(6, 12)])
        if k % 24 == 0:
            v, bw = rnd.randint(8, 24), 3
            d = 4 * v + 17
        exact = rnd.random() < .7
        n = rnd.randint(0, 60) if exact else rnd.choice([100, 101])
        size = 3 * d if exact else rnd.choice([1, 2, 10, 100, 3 * d])
        mx, my = rnd.choice([(0, 0), (0, 0), (5, -7), (-2, 3)])
        l = [o("width", n=bw), border(rnd), half(rnd, n=n, l=[size, mx, my] + (rnd.choice([[1, 1], [2, 1], [1, 2], [3, 1], [1, 4], [2, 3], [5, 2], [2, 2]]) if exact else rnd.choice([[1, 1], [3, 1], [1, 7]])))]
        if rnd.random() < .5:
            l += colours(rnd)
        if rnd.random() < .3:
            l.append(o("transparent"))
        if rnd.random() < .2:
            l.append(o("logo", l=[20, 20, 0, 0], n=1))
            if rnd.random() < .5:
                l.append(o("safe"))
        rnd.shuffle(l)
        s.add(l, v)
    # halftone pictures drawn with a shape, and large ones: the centres of the sub-blocks
    for k in range(300 if ctx.thorough else 24):
        v, bw = rnd.choice([1, 2, 3, 7]), 3 * rnd.choice([3, 4, 5, 6, 7, 11, 20, 33])
        if k % 4 == 0:
            v, bw = rnd.randint(8, 40), rnd.choice([3, 9])
        if k % 6 == 1:
            v, bw = 1, 3 * rnd.randint(34, 85)
        l = [o("width", n=bw), border(rnd, bw, bw + 9) if bw < 40 else border(rnd), half(rnd, n=rnd.randint(0, 60), l=[3 * (4 * v + 17), 0, 0])]
        l += [shape_of(rnd, bw // 3)] if bw >= 9 and rnd.random() < .6 else []
        l += colours(rnd) if rnd.random() < .5 else []
        l += [o("transparent")] if rnd.random() < .3 else []
        rnd.shuffle(l)
        s.add(l, v, runs=False, sparse=True)
    def combine(v, bw, l):
        r = []
        if rnd.random() < .25:
            n = max(1, (4 * v + 17) * bw // rnd.choice([5, 6, 9]))
            own = next((x["c"] for x in l if x["o"] == "fg" and x.get("t") != "gray"), None)
            if own is None and not any(x["o"] in ("fg", "fghex") for x in l):
                own = [0, 0, 0, 255]
            r.append(o("logo", l=[n, n, 0, 0], n=0) if own is None else o("logo", l=[n, n, 0, 0], n=3, c=own))
            r += [o("safe")] if rnd.random() < .5 else []
        if bw % 3 == 0 and rnd.random() < .4:
            r.append(half(rnd, n=rnd.randint(0, 60), l=[3 * (4 * v + 17), 0, 0]))
        return r
    dirs = [(0, 1), (1, 0), (0, -1), (-1, 0), (1, 1), (1, -1), (-1, 1), (-1, -1), (1, 2), (3, -2), (-5, 7), (7, 3), (10, 1)]
    for k in range(500 if ctx.thorough else 70):
        p, q = dirs[k % len(dirs)]
        ts = rnd.sample(range(0, 101), rnd.randint(1, 5))
        if rnd.random() < .5:
            ts = list({0, 100} | set(ts))
            rnd.shuffle(ts)
        if rnd.random() < .2:      # hard edges
            i = rnd.randrange(len(ts))
            ts[i:i] = [ts[i]]
        stops = [[t] + colour(rnd)[:3] for t in ts]
        # the gradient must be told apart from the foreground colour
        l = [o("width", n=rnd.randint(1, 4)), o("grad", l=[p, q, rnd.choice([0, 0, 1, -1])], s=stops), border(rnd, 0, 12)]
        if rnd.random() < .6:
            l += colours(rnd)
        elif rnd.random() < .25:      # everything has the foreground colour
            c = colour(rnd)
            l += [o("fg", t="rgba", c=c), o("bg", t="nrgba", c=c)]
        if rnd.random() < .3:
            l.append(o("transparent"))
        x = rnd.random()
        if x < .25:
            l.append(o("circle"))
        elif x < .5:
            l.append(o("shape", x=rnd.choice(["rounded", "square"]), y=rnd.choice(SHAPES), n=80))
        if rnd.random() < .15:
            l.append(o("grad", t="nil", l=[0, 1, 0]))
        l += combine(1, l[0]["n"], l)
        rnd.shuffle(l)
        s.add(l, 1, runs=False, pack=True)
    # large pictures at some places
    for k in range(300 if ctx.thorough else 40):
        v, bw = rnd.choice([(1, rnd.randint(5, 40)), (rnd.randint(2, 12), rnd.randint(1, 10)), (rnd.randint(13, 40), rnd.randint(1, 5))])
        ts = rnd.sample(range(0, 101), rnd.randint(1, 8))
        p, q = rnd.choice(dirs + [(rnd.randint(-12, 12), rnd.randint(1, 12))])
        l = [o("width", n=bw), o("grad", l=[p, q, rnd.choice([0, 0, 1, -1, 2])], s=[[t] + colour(rnd)[:3] for t in ts]), border(rnd, 0, 60)]
        l += colours(rnd) if rnd.random() < .6 else []
        l += [o("transparent")] if rnd.random() < .3 else []
        l += [shape_of(rnd, bw)] if bw >= 3 and rnd.random() < .4 else []
        l += combine(v, bw, l)
        rnd.shuffle(l)
        s.add(l, v, runs=False, pack=True, some=1500)
    s.run()
