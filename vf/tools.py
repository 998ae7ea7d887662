"""C23, C24: the command line tool and the WebAssembly module."""
import json, os, random, shutil, subprocess
from .core import check, Broken, TLA, VERIF, REPO, goenv
from . import core
from .texts import text, ALNUM, kanji_cps, odd_texts


def build_tool(ctx, pkg, goos=None):
    """Builds a program of the repository in a workspace of its own modules."""
    out = os.path.join(ctx.tmp, os.path.basename(pkg) + (".wasm" if goos else ""))
    work = os.path.join(ctx.tmp, "tool.work")
    use = [".", pkg, "writer/compressed", "writer/file", "writer/standard", "writer/terminal"]
    with open(work, "w") as f:
        f.write("go 1.19\n\nuse (\n" + "".join("\t%s\n" % os.path.normpath(os.path.join(core.REPO, u)) for u in use) + ")\n")
    s = os.path.join(core.REPO, "go.work.sum")
    if os.path.exists(s):
        shutil.copy(s, work + ".sum")
    env = goenv(GOWORK=work)
    if goos:
        env.update(GOOS="js", GOARCH="wasm")
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=os.path.join(core.REPO, pkg), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise Broken("build of %s failed:\n%s" % (pkg, r.stderr[-4000:]))
    return out


def some_text(rnd, n=None, nul=False):
    if n is None and rnd.random() < .25:
        raw = rnd.choice([t for t in odd_texts() if t])
        return raw if nul else [b or 97 for b in raw]
    mode = rnd.choice([1, 2, 4, 4, 4, 8])
    n = n or rnd.choice([1, 2, 5, 10, 20, 35])
    raw = text(rnd, mode, n)
    return raw if nul else [b or 97 for b in raw]


class Cli:
    EXT = {"png": ".png", "jpg": ".jpg", "jpeg": ".jpeg", "upper": ".PNG", "nosuffix": "", "hidden": ".png", "dotdir": ""}

    def __init__(self, ctx):
        self.ctx, self.rnd, self.cases = ctx, random.Random("%s-%d" % (ctx.prop, ctx.seed)), []

    def value(self, f, c):
        rnd = self.rnd
        n = lambda: rnd.choice([0, 1, 2, 5, 10, 17, rnd.randint(0, 40)])
        if f == "block":
            return {"ok": str(rnd.choice([rnd.randint(1, 12), 3 * rnd.randint(1, 6)])), "three": str(3 * rnd.randint(3, 14)), "zero": "0", "max": "255", "over": rnd.choice(["256", "257", "300", "511", "512", "65536", "4294967301", "18446744073709551616"]),
                    "neg": "-1", "word": rnd.choice(["five", "5.5", "5px", "1e1"]), "none": ""}[c]
        if f == "borders":
            l = [n() for _ in range(4)]
            s = ",".join(map(str, l))
            k = rnd.randrange(4)
            alt = lambda x: ",".join(str(v) if i != k else x for i, v in enumerate(l))
            return {"ok": s, "zeros": "0,0,0,0", "max": alt("255"), "three": "%d,%d,%d" % (n(), n(), n()), "five": s + ",0", "over": alt(rnd.choice(["256", "1000"])),
                    "neg": alt("-1"), "word": alt(rnd.choice(["x", "", "1.5"])), "none": "", "space": s.replace(",", ", ", 1)}[c]
        if f in ("circle", "transparent", "terminal"):
            return {"plain": None, "true": "true", "false": "false", "word": rnd.choice(["maybe", "2"])}[c]
        if f == "unknown":
            return None
        if f == "halftone":
            return {"missing": "in/none.png", "picture": "in/picture.png", "dark": "in/dark.png", "light": "in/light.png", "none": ""}[c]

    def add(self, flags, txt, path):
        rnd = self.rnd
        big = any(f["f"] == "block" and f["c"] == "max" for f in flags)
        raw = {"short": lambda: some_text(rnd, 1 if big else None), "long": lambda: some_text(rnd, rnd.choice([60, 120, 300, 700])),
               "toolong": lambda: some_text(rnd, 4000), "empty": lambda: [],
               "dash": lambda: list(rnd.choice([b"-", b"--", b"-x", b"--help", b"--circle", b"-1"])), "help": lambda: list(rnd.choice([b"help", b"h"]))}[txt]()
        if txt == "toolong" and rnd.random() < .5:     # exactly at the limit
            mode = rnd.choice([(3993, 48), (2420, 65), (1663, 97)])
            raw = [mode[1]] * (mode[0] + rnd.choice([0, 1]))
            if mode[1] == 48 or rnd.random() < .5:
                raw = [mode[1]] * (mode[0] + 1)
        if len(raw) > 150 and big:
            flags = [f for f in flags if f["f"] != "block" or f["c"] != "max"]
        base = {"fresh": "%s", "longer": "%s", "symlink": "%s", "subdir": "sub/dir/%s", "nodir": "missing/%s", "isdir": "%s", "underfile": "plain/%s",
                "toolongname": "x" * 256 + "%s", "full": "/dev/full", "loop": "%s", "empty": ""}
        out, fl = "qrcode.jpg", []
        for f in flags:
            if f["f"] == "output":
                if f["c"] == "self":      # the halftone picture itself is to be overwritten
                    v, path = "in/%s.png" % f["v"], "subdir"
                elif path in ("full", "empty"):
                    v = base[path]
                else:
                    nm = {"hidden": ".png", "dotdir": "v1.png/picture"}.get(f["c"]) or rnd.choice(["pic", "a b", "pic.tar", "p\u00e9"]) + self.EXT[f["c"]]
                    v = base[path] % nm
                out = v
                fl.append(dict(f="output", v=v, form=rnd.choice([0, 1, 2, 3, 4])))
            else:
                v = self.value(f["f"], f["c"])
                forms = [5] if v is None else [0, 2] if f["f"] in ("circle", "transparent", "terminal") else [0, 1, 2, 3, 4] if f["f"] in ("block", "borders") else [0, 1, 2]
                fl.append(dict(f=f["f"], v=v or "", form=rnd.choice(forms)))
        for name in ("block", "borders", "output"):     # one spelling of a flag per command line
            same = [f for f in fl if f["f"] == name]
            if len(same) > 1:
                for f in same:
                    f["form"] = f["form"] % 3
        if not any(f["f"] == "output" for f in fl):
            path = path if path in ("fresh", "longer", "symlink", "isdir", "loop") else "fresh"
        if path == "fresh" and "/" in out:
            path = "subdir"
        if "/" in out and path not in ("subdir", "nodir", "underfile", "full"):
            path = "subdir" if path in ("longer", "symlink") else path
        if "/" in out and path in ("isdir", "loop", "toolongname", "underfile"):
            path = "nodir"
        dash = txt == "dash" or (txt == "empty" and rnd.random() < .5) or (raw and raw[0] == 45) or rnd.random() < .2
        self.cases.append(dict(id=len(self.cases) + 1, k="cli", raw=raw, flags=fl, path=path, out=out, dash=bool(dash)))


@check("C23", "model_checking", "every single flag value class with every kind of text and target emitted by GenCli.tla (quick: sampled), simulated longer command lines; "
       "distinct = differs in text, flags or target")
def c23(ctx):
    s = Cli(ctx)
    rnd = s.rnd
    g = ctx.generate("GenCli")
    sim = ctx.generate("GenCli", cfg=os.path.join(TLA, "GenCliSim.cfg"),
                       extra=["-simulate", "num=%d" % (900 if ctx.thorough else 120), "-depth", "7", "-seed", str(ctx.seed)])
    sim = [x for x in sim if len(x["flags"]) > 1]
    calm = [x for x in g + sim if x["text"] in ("short", "long", "help") and x["path"] in ("fresh", "longer", "subdir")]
    if not ctx.thorough:
        g = rnd.sample(g, 260)
        sim = rnd.sample(sim, min(len(sim), 200))
        calm = rnd.sample(calm, min(len(calm), 110))
    else:
        g, sim, calm = rnd.sample(g, min(len(g), 9000)), rnd.sample(sim, min(len(sim), 2500)), rnd.sample(calm, min(len(calm), 3000))
    for x in g + sim + calm:
        s.add(x["flags"], x["text"], x["path"])
    # pictures: well-formed flags in any number
    for _ in range(900 if ctx.thorough else 130):
        fl = [dict(f="output", c=rnd.choice(["png", "png", "png", "jpg", "jpeg", "upper", "hidden"]))]
        for f, c in (("block", rnd.choice(["ok", "ok", "zero"])), ("borders", rnd.choice(["ok", "ok", "max"])), ("circle", rnd.choice(["plain", "true", "false"])),
                     ("transparent", rnd.choice(["plain", "true", "false"])), ("halftone", rnd.choice(["missing", "none", "picture", "dark", "dark", "light", "light"]))):
            if rnd.random() < .45:
                fl.append(dict(f=f, c=c))
        rnd.shuffle(fl)
        s.add(fl, rnd.choice(["short", "short", "short", "help", "dash", "long", "empty"]), rnd.choice(["fresh", "longer", "symlink", "subdir"]))
    # circles under a halftone picture
    for _ in range(60 if ctx.thorough else 10):
        fl = [dict(f="output", c=rnd.choice(["png", "png", "png", "jpg"])), dict(f="block", c="three"), dict(f="circle", c="plain"),
              dict(f="halftone", c=rnd.choice(["dark", "light", "picture", "missing"]))] + [dict(f=f, c=c) for f, c in (("borders", "ok"), ("transparent", "plain")) if rnd.random() < .5]
        rnd.shuffle(fl)
        s.add(fl, rnd.choice(["short", "short", "long"]), "fresh")
    for _ in range(60 if ctx.thorough else 12):
        v = rnd.choice(["dark", "light"])
        fl = [dict(f="output", c="self", v=v), dict(f="halftone", c=rnd.choice([v, v, v, "dark", "light"])), dict(f="block", c="ok")]
        fl += [dict(f=f, c=c) for f, c in (("borders", "ok"), ("transparent", "plain")) if rnd.random() < .4]
        rnd.shuffle(fl)
        s.add(fl, rnd.choice(["short", "short", "long"]), "subdir")
    # every text that programs are tempted to tidy up
    # and every path
    paths = [" o.png", "o.png ", " o.jpg\t", "%s.png", "$HOME.png", "~.png", "-", "-.png", "*.png", "o.png.", "o..png", "\"o.png\"", "a:b.png", "o.png\n", "..png", "\\o.png", "o.pngx", "o.apng", "./o.png", "https:o.png", "stdout", "o,p.png"]
    for k, t in enumerate(odd_texts(rnd)):
        raw = [b for b in t if b]
        v = paths[k // 2] if k % 2 and k // 2 < len(paths) else rnd.choice(["o.png", "o.png", "o.jpg"] + paths)
        fl = [dict(f="output", v=v, form=0)]
        fl.append(dict(f="block", v=rnd.choice(["2", "3"]) if v.endswith(".png") else "8", form=rnd.choice([0, 1, 2, 3, 4])))
        if rnd.random() < .8:
            fl.append(dict(f="borders", v="1,2,3,4", form=0))
        s.cases.append(dict(id=len(s.cases) + 1, k="cli", raw=raw, flags=fl, path="fresh", out=fl[0]["v"], dash=not raw or raw[0] == 45))
    exe = build_tool(ctx, "cmd/qrcode")
    evs = ctx.drive(s.cases, env={"VERIF_CLI": exe})
    ctx.log("%d invocations" % len(evs))
    ctx.notes["status_0"] = sum(1 for e in evs if e.get("status") == 0)
    ctx.validate("TraceCli", evs)


def utf8(raw):
    try:
        bytes(raw).decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


class Wasm:
    def __init__(self, ctx):
        self.ctx, self.rnd, self.cases = ctx, random.Random("%s-%d" % (ctx.prop, ctx.seed)), []

    def text(self, n=None):
        while True:
            raw = some_text(self.rnd, n, nul=True)
            if utf8(raw):
                return raw

    def hexc(self, extreme=False):
        rnd = self.rnd
        if extreme:
            return "#" + "".join(rnd.choice(["00", "ff", "FF"]) for _ in range(3))
        n = rnd.choice([3, 6])
        return "#" + "".join(rnd.choice("0123456789abcdefABCDEF") for _ in range(n))

    def style(self, jpeg=False, p=.45):
        rnd = self.rnd
        o = {}
        if jpeg:
            pairs = [("#000000", "#ffffff"), ("#00f", "#ff0"), ("#f00", "#fff"), ("#000", "#0ff"), ("#ffffff", "#000000")]
            fg, bg = rnd.choice(pairs)
            if rnd.random() < .6:
                o.update(outputQrColor=fg, outputBgColor=bg)
            o["outputQrWidth"] = rnd.randint(8, 20)
            o["outputImageEncoder"] = rnd.choice(["jpg", "jpeg"])
        else:
            if rnd.random() < p:
                o["outputQrColor"] = rnd.choice([self.hexc(), self.hexc(), ""])
            if rnd.random() < p:
                o["outputBgColor"] = rnd.choice([self.hexc(), self.hexc(), ""])
            if rnd.random() < p + .3:
                o["outputQrWidth"] = rnd.choice([1, 2, 3, 4, 5, 8, 13, 20, 0, rnd.randint(6, 64)])
            if rnd.random() < p:
                o["outputImageEncoder"] = rnd.choice(["png", "png", ""])
        if rnd.random() < p:
            o["outputBgTransparent"] = rnd.random() < .6
        if rnd.random() < p:
            o["outputCircleShape"] = rnd.random() < .5 and o.get("outputQrWidth", 20) >= (8 if jpeg else 0)
        if rnd.random() < p:
            o["outputMargin"] = rnd.choice([0, 1, 2, 7, 20, 40, 60, 256, rnd.randint(0, 300)])
        if rnd.random() < .15:
            o[rnd.choice(["outputMargin", "outputBgColor", "encodeVersion", "other"])] = None
        return o

    def encode(self, raw):
        rnd = self.rnd
        o = {}
        if rnd.random() < .5:
            o["encodeVersion"] = rnd.choice([0, 1, 2, 3, 4, 5, 6, 7, 10, 14, rnd.randint(1, 25)])
        if rnd.random() < .5:
            o["encodeECLevel"] = rnd.choice(["L", "M", "Q", "H", ""])
        if rnd.random() < .5:
            o["encodeMode"] = rnd.choice([0, 4, 8, 16, 32, 32])
        return o

    def again(self, prev, change):
        rnd = self.rnd
        a = json.loads(json.dumps(prev))
        if not change:
            return a
        if rnd.random() < .3 or not a:
            return [dict(raw=self.text())] + a[1:]
        ob = a[1]["obj"] if len(a) > 1 and "obj" in a[1] else {}
        plain = [dict(encodeVersion=rnd.choice([5, 6, 8, 11])), dict(encodeECLevel=rnd.choice("LMQH")), dict(encodeMode=32)]
        new = rnd.choice(plain if ob.get("outputImageEncoder") in ("jpg", "jpeg") else plain + [dict(encodeVersion=rnd.choice([5, 6, 8, 11])), dict(encodeECLevel=rnd.choice("LMQH")), dict(outputMargin=rnd.choice([1, 7, 33])),
                          dict(outputQrWidth=rnd.choice([2, 3, 6])), dict(outputQrColor="#1a3c5e"), dict(outputBgColor="#f0e68c"), dict(outputCircleShape=True),
                          dict(encodeMode=32), dict(outputBgTransparent=not ob.get("outputBgTransparent", False))])
        return a[:1] + [dict(obj=dict(ob, **new))]

    def call(self, c):
        rnd = self.rnd
        t = dict(raw=self.text())
        if c == "styled":
            return [t, dict(obj=self.style())]
        if c == "encoded":
            return [t, dict(obj=dict(self.style(p=.2), **self.encode(t["raw"])))]
        if c == "jpeg":
            return [t, dict(obj=dict(self.style(jpeg=True), **(self.encode(t["raw"]) if rnd.random() < .3 else {})))]
        if c == "plain" and rnd.random() < .15:      # large symbols, small blocks
            v = rnd.choice([0, 40, rnd.randint(15, 40)])
            return [dict(raw=self.text(rnd.choice([60, 120, 250, 400, rnd.randint(401, 900)]) if not v else None)), dict(obj=dict(outputQrWidth=rnd.choice([1, 2, 3]), outputMargin=rnd.randint(1, 9), **({"encodeVersion": v} if v else {})))]
        if c == "plain" and rnd.random() < .1:       # large blocks
            return [dict(raw=self.text(rnd.choice([1, 5]))), dict(obj=dict(outputQrWidth=rnd.randint(65, 255), outputMargin=rnd.choice([1, 500, 1001])))]
        if c == "plain":
            return [t, dict(obj=rnd.choice([{}, {"outputQrWidth": rnd.choice([0, 1, 5])}]))]
        if c == "impossible":
            return [t, dict(obj=dict(self.style(), **rnd.choice([dict(outputQrWidth=rnd.choice([256, 257, 276, 300, 512, 65556, 4294967301, -1, -236])), dict(encodeVersion=rnd.choice([41, 42, 255, 256, 257, 296, -1, -255]))])))]
        if c == "content-only":
            return [t]
        if c == "odd-but-fine":
            return rnd.choice([[t, dict(odd=rnd.choice(["null", "undefined", "number", "bool", "nulls", "undefineds", "object", "proto", "asker", "asker2", "inherited"]))], [t, dict(obj={"outputQrWidth": 4}), dict(odd="number")]])
        if c == "too-long":
            return [dict(raw=[97] * rnd.choice([1664, 3000, 10000])), dict(obj=rnd.choice([{}, {"encodeVersion": 1}]))] if rnd.random() < .6 else [t, dict(obj={"encodeMode": 4, "encodeVersion": 1})]
        if c == "no-arguments":
            return []
        if c == "bad-colour":
            return [t, dict(obj={rnd.choice(["outputBgColor", "outputQrColor"]): rnd.choice(["red", "#12", "#12345", "#gggggg", "123456", "#1234567", "rgb(1,2,3)"])})]
        if c == "wrong-mode":
            return [dict(raw=list(b"not a number")), dict(obj={"encodeMode": rnd.choice([4, 8, 16])})]
        if c == "odd-content":
            return [dict(odd=rnd.choice(["null", "undefined", "number", "nan", "bool", "array", "object", "function", "symbol", "bigint", "surrogate"]))] + ([dict(obj={})] if rnd.random() < .5 else [])
        if c == "odd-options":
            return [t, dict(odd=rnd.choice(["array", "function", "symbol", "bigint", "string", "empty", "nan", "getter", "thrower", "own", "revoked"]))]
        if c == "odd-values":
            return [t, dict(odd=rnd.choice(["strings", "numbers", "objects", "nans", "infinities"]))] if rnd.random() < .5 else \
                   [t, dict(obj={rnd.choice(["encodeVersion", "encodeMode", "outputQrWidth"]): rnd.choice([-1, 41, 1000, 3.7, 1e12, "7", True])})]
        if c == "huge":
            return [t, dict(obj={"outputMargin": rnd.choice([20000, 9e6, 1e9, 1e15])})] if rnd.random() < .5 else [t, dict(obj={"encodeVersion": 40, "outputQrWidth": 255})]
        if c == "negative":
            return [t, dict(obj={"outputMargin": rnd.choice([-1, -40, -300, -1e9])})]

    def add(self, classes):
        calls = []
        for c in classes:
            a = self.again(calls[-1]["args"], c == "nearly-again") if c in ("again", "nearly-again") else self.call(c)
            if len(a) > 1 and "obj" in a[1]:
                ob = a[1]["obj"]
                fg, bg = (ob.get("outputQrColor") or "#000"), (ob.get("outputBgColor") or "#fff")
                full = lambda h: (h if len(h) == 7 else "#" + "".join(2 * x for x in h[1:])).lower()
                if ob.get("outputCircleShape") and ob.get("outputQrWidth") == 2 and (ob.get("outputQrColor") or ob.get("outputBgColor")):
                    ob["outputQrWidth"] = 3
                if full(fg) == full(bg):
                    ob.pop("outputQrColor", None), ob.pop("outputBgColor", None)
            calls.append(dict(args=a, wait=self.rnd.random() < .3))
        self.cases.append(dict(id=len(self.cases) + 1, k="wasm", calls=calls))


@check("C24", "model_checking", "every history of two calls over the classes of GenWasm.tla (quick: sampled) and simulated ones of up to nine, in the real module under Node; "
       "distinct = differs in any argument")
def c24(ctx):
    s = Wasm(ctx)
    rnd = s.rnd
    g = ctx.generate("GenWasm")
    sim = ctx.generate("GenWasm", cfg=os.path.join(TLA, "GenWasmSim.cfg"),
                       extra=["-simulate", "num=%d" % (400 if ctx.thorough else 30), "-depth", "11", "-seed", str(ctx.seed)])
    sim = [x for x in sim if len(x["calls"]) == 9]
    hist = sorted({tuple(x["calls"]) for x in g})
    # histories of two are joined four at a time: an instance takes a while to start
    pairs = [h for h in hist if len(h) == 2]
    rnd.shuffle(pairs)
    pairs = pairs if ctx.thorough else pairs[:120]
    for i in range(0, len(pairs), 4):
        s.add([c for p in pairs[i:i + 4] for c in p])
    for x in rnd.sample(sim, min(len(sim), 400 if ctx.thorough else 20)):
        s.add(x["calls"])
    for _ in range(300 if ctx.thorough else 22):
        s.add(["plain"] + [rnd.choice(["plain", "styled", "encoded", "encoded", "jpeg", "styled", "content-only"] + 5 * ["nearly-again"]) for _ in range(9)])
    odd = [t for t in odd_texts(rnd) if utf8(t)]
    for i in range(0, len(odd), 20):          # every text that programs are tempted to tidy up
        s.cases.append(dict(id=len(s.cases) + 1, k="wasm", calls=[
            dict(args=[dict(raw=t), dict(obj=dict(outputQrWidth=rnd.choice([1, 2, 3]), outputMargin=rnd.randint(1, 9), outputImageEncoder="png"))], wait=False) for t in odd[i:i + 20]]))
    mod = build_tool(ctx, "cmd/wasm", "js")
    run, execjs = os.path.join(ctx.tmp, "run.js"), os.path.join(ctx.tmp, "wasm_exec.js")
    shutil.copy(os.path.join(VERIF, "harness", "wasm", "run.js"), run)
    shutil.copy(os.path.join(os.path.dirname(core.GOBIN), "lib", "wasm", "wasm_exec.js"), execjs)
    evs = ctx.drive(s.cases, limit=110, env={"VERIF_WASM": mod, "VERIF_WASM_RUN": run, "VERIF_WASM_EXEC": execjs})
    n = [c for e in evs for c in e.get("calls", [])]
    ctx.log("%d calls, %d pictures" % (len(n), sum(1 for c in n if c["fmt"])))
    ctx.notes["calls"] = len(n)
    ctx.validate("TraceWasm", evs)


@check("C28", "model_checking", "every session of GenTty.tla (quick: sampled) with the built command on a pseudo terminal of its own; distinct = differs in text, flags, terminal or keys")
def c28(ctx):
    rnd = random.Random("%s-%d" % (ctx.prop, ctx.seed))
    g = ctx.generate("GenTty")
    n = 900 if ctx.thorough else 110
    refused = [x for x in g if not x["steps"]]
    shown = [x for x in g if x["steps"]]
    pick = refused + rnd.sample(shown, min(n, len(shown)))
    if ctx.thorough:
        pick += refused * 4
    cases = []
    f = lambda n, v="", form=0: dict(f=n, v=v, form=form)
    for x in pick:
        edge = [t for t in odd_texts() if t and 0 not in t and (t[0] < 33 or t[-1] < 33)]
        raw = {"short": lambda: some_text(rnd) if rnd.random() < .75 else rnd.choice(edge), "medium": lambda: some_text(rnd, rnd.choice([60, 120, 200])),
               "toolong": lambda: some_text(rnd, 4000), "empty": lambda: [],
               "dash": lambda: list(rnd.choice([b"-", b"--", b"-x", b"--terminal"])), "help": lambda: list(rnd.choice([b"help", b"h"]))}[x["text"]]()
        flags = {"plain": [f("terminal", form=5)], "equals": [f("terminal", "true", rnd.choice([0, 2]))], "single": [f("terminal", "true", 2)],
                 "with-picture-flags": [f("terminal", form=5), f("output", rnd.choice(["x.png", "missing/x.jpg"])), f("block", "9"), f("circle", form=5), f("transparent", form=5), f("halftone", "none.png")],
                 "bad-borders": [f("borders", rnd.choice(["1,2,3", "1,2,3,x", "", "1,2,3,256"])), f("terminal", form=5)],
                 "bad-block": [f("terminal", form=5), f("block", rnd.choice(["256", "x", "-1"]))],
                 "unknown": [f("unknown", form=5), f("terminal", form=5)],
                 "twice": [f("terminal", "false", 0), f("terminal", "true", 0)]}[x["form"]]
        if x["form"] == "with-picture-flags":
            rnd.shuffle(flags)
            flags = flags[:rnd.randint(2, 6)]
            if not any(k["f"] == "terminal" for k in flags):
                flags[0] = f("terminal", form=5)
        d = 57 if len(raw) < 150 else 90
        cases.append(dict(id=len(cases) + 1, k="tty", raw=raw, flags=flags, dash=x["text"] == "dash" or bool(raw and raw[0] == 45) or rnd.random() < .3,
                          term=rnd.choice(["xterm", "xterm", "xterm-256color", "screen", "rxvt-unicode", "linux"]) , cols=2 * (d + 2) + rnd.randint(1, 9), rows=d + 2 + rnd.randint(1, 6), steps=x["steps"] or ["letter"]))
    exe = build_tool(ctx, "cmd/qrcode")
    evs = ctx.drive(cases, env={"VERIF_CLI": exe})
    ctx.log("%d sessions, %d screens" % (len(evs), sum(1 for e in evs if e.get("shown"))))
    ctx.notes["screens"] = sum(1 for e in evs if e.get("shown"))
    ctx.validate("TraceTty", evs)
