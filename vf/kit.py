"""C27: the image helpers."""
import random
from .core import check


@check("C27", "model_checking", "every pipeline of up to three helper calls over eleven kinds of picture (GenKit.tla; quick: sampled), every threshold, random sizes, corners and contents; "
       "distinct = differs in picture or calls")
def c27(ctx):
    rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))
    cases = []

    def add(typ, ops, w=None, h=None, fill=None):
        if w is None and rnd.random() < .04:
            w, h = rnd.choice([(0, 0), (0, 5), (4, 0)])
            ops = [x for x in ops if not x.startswith("save")]
        w, h = w if w is not None else rnd.choice([1, 2, 3, 7, 8, 16, rnd.randint(1, 14)]), h if h is not None else rnd.choice([1, 2, 5, 8, 13, rnd.randint(1, 12)])
        img = dict(type=typ, w=w, h=h, x=rnd.choice([0, 0, 3, 11, -4]), y=rnd.choice([0, 0, 5, -2]), fill=fill or rnd.choice(["uniform", "ramp", "noise", "noise"]), seed=rnd.randrange(1 << 30))
        l = []
        cw, ch = w, h
        for o in ops:
            if o in ("gray",):
                l.append(dict(op="gray"))
            elif o == "bin":
                l.append(dict(op="bin", n=rnd.choice([0, 1, 60, 127, 128, 254, 255, rnd.randrange(256)])))
            elif o == "paint":
                l.append(dict(op="paint", n=rnd.randrange(1 << 20)))
            elif o in ("scale", "same"):
                tw, th = (cw, ch) if o == "same" else (0 if rnd.random() < .04 and not any(x.startswith("save") for x in ops) else rnd.randint(1, 24), rnd.randint(1, 24))
                l.append(dict(op="scale", r=[rnd.choice([0, 0, 4, -3]), rnd.choice([0, 0, 2, -5]), tw, th], how=rnd.choice(["", "", "", "nearest", "bilinear", "catmull"])))
                cw, ch = tw, th
            else:
                kind, bad = o[5:], ""
                if kind == "fail":
                    kind, bad = rnd.choice(["png", "jpeg"]), rnd.choice(["full", "full", "nodir", "isdir"])
                name = {"png": rnd.choice(["a.png", ".png", "a.jpg.png"]), "jpeg": rnd.choice(["a.jpg", "a.jpeg", "b.png.jpeg"]),
                        "other": rnd.choice(["a.gif", "a", "a.bmp", "a.png.txt", "apng", "a.jpg~", "a.", "a.png.gz", "a.jp"])}[kind]
                l.append(dict(op="save", name=name, prior=rnd.choice([0, 0, 10, 5000]), bad=bad))
        cases.append(dict(id=len(cases) + 1, k="kit", img=img, ops=l))

    g = ctx.generate("GenKit")
    # storing premultiplied translucent pixels as PNG cannot be exact
    g = [x for x in g if not (x["type"] == "translucent" and any(o in ("scale", "same") for o in x["ops"]) and "save-png" in x["ops"])]
    for x in (g if ctx.thorough else rnd.sample(g, 600)):
        add(x["type"], x["ops"])
    for n in range(256):
        add(rnd.choice(["gray", "rgba", "nrgba", "plain"]), [], 16, 16, rnd.choice(["ramp", "ramp", "noise"]))
        cases[-1]["ops"] = [dict(op="bin", n=n)]
    for _ in range(3000 if ctx.thorough else 150):
        add(rnd.choice(["rgba", "nrgba", "cmyk", "ycbcr", "paletted", "gray16", "nrgba64", "translucent", "rgba64"]), rnd.choice([["gray"], ["bin"], ["scale"], ["same"]]), fill="noise")
    evs = ctx.drive(cases)
    ctx.log("%d pipelines" % len(evs))
    ctx.validate("TraceKit", evs)
