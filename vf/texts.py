"""Texts of a given mode and length, for the length classes the specification enumerates."""
import json, os, random
from .core import TLA

ALNUM = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"
API = {1: 4, 2: 8, 4: 32, 8: 16}     # mode indicator -> value of the Go API
_k = None


def kanji_cps():
    global _k
    if _k is None:
        tab = json.load(open(os.path.join(TLA, "data", "kanjicp.json")))
        _k = [0x4E00 + i for i, v in enumerate(tab) if v > 0]
    return _k


def other_cps():
    ok = set(kanji_cps())
    return [c for c in range(0x4E00, 0xA000) if c not in ok]


def almost(rnd, r, change):
    """Repetitive but for a few places: blocks and rows that are nearly alike."""
    for _ in range(rnd.choice([1, 2, 5, 1 + len(r) // 30])):
        if r:
            i = rnd.randrange(len(r))
            r[i] = change(r[i])
    return r


def text(rnd, mode, n, style=None):
    """n characters (bytes in byte mode) as a list of byte values; auto-detection gives `mode`."""
    if mode == 1:
        if style == "zeros":
            return [48] * n
        if style == "almost" or not style and rnd.random() < .12:
            return almost(rnd, [48 + rnd.randrange(10)] * n, lambda c: 48 + rnd.randrange(10))
        return [48 + rnd.randrange(10) for _ in range(n)]
    if mode == 2:
        r = [ALNUM[rnd.randrange(45)] for _ in range(n)]
        if style == "almost" or not style and rnd.random() < .12:
            r = almost(rnd, r[:1] * n, lambda c: ALNUM[rnd.randrange(45)])
        if n and all(48 <= c <= 57 for c in r):
            r[rnd.randrange(n)] = ALNUM[10 + rnd.randrange(35)]
        return r
    if mode == 8:
        ks = kanji_cps()
        return [b for _ in range(n) for b in chr(rnd.choice(ks)).encode()]
    style = style or rnd.choice(["bytes", "utf8", "ascii", "zero", "ff", "almost"])
    if style == "bytes":
        r = [rnd.randrange(256) for _ in range(n)]
    elif style == "ascii":
        r = [rnd.randrange(32, 127) for _ in range(n)]
    elif style == "almost":
        r = almost(rnd, [rnd.randrange(256)] * n, lambda c: c ^ 1 << rnd.randrange(8))
    elif style == "zero":
        r = [0] * n
    elif style == "ff":
        r = [255] * n
    else:
        r = []
        while len(r) < n:
            cp = rnd.choice([rnd.randrange(32, 127), rnd.randrange(0x80, 0x800), rnd.randrange(0x800, 0xD800),
                             rnd.choice(kanji_cps()), rnd.randrange(0x10000, 0x10FFFF), 0x3042, 0xFF11])
            b = list(chr(cp).encode())
            r += b if len(r) + len(b) <= n else [rnd.randrange(97, 123)] * (n - len(r))
    return r


def auto_ok(raw):
    """True when automatic detection must give byte mode (there is a byte outside every other set)."""
    return any(b < 128 and b not in ALNUM for b in raw)


def force_byte(rnd, raw):
    if raw and not auto_ok(raw):
        raw[rnd.randrange(len(raw))] = rnd.randrange(97, 123)
    return raw


def odd_texts(rnd=None):
    """Texts that programs are tempted to tidy up, as lists of byte values."""
    u = ["\ufeffabc", "\ufeff", "\ufeff12", "abc\ufeff", "12\n", "\n12", " 12", "12 ", "\t12", "12\r\n", "a\r\nb", "a\rb", "a\nb", "abc\n", "abc\n\n", " abc ",
         "\u00a0x", "x\u00a0", "\u3000", "\u3000\u4e00", "\u4e00\u3000", "\u2028x", "\u200bx", "x\u200b", "\u4e00\ufe00", "\u4e00\u200d\u4e8c", "\u200e1",
         "e\u0301", "\u00e9", "\u1100\u1161", "\uac00", "\ufb01", "\uff21\uff11", "\u212b", "\uf900", "\u8c48",
         "\x00", "a\x00", "\x00a", "a\x00b", "\x00\x00\x00", "12\x00", "\x0012", "A\x00", "\x1b[0m", "\x7f", "\x04", "\x1a", "x\x1a",
         "%20", "%", "%%", "%%%", "A%B", "A%%B", "A%41", "+", "A+B", "&amp;", "&#65;", "\\n", "\\u0041", "\"q\"", "'q'", "$HOME", "`id`", "{}", "[]", "a\\",
         "0", "00", "000", "0000", "00000000", "007", "0x1F", "1E5", "1.5", "-1", "+1", "1,5", "1/2", "12:30", "1 2", "999", "1000", "9999999999999999999999", "00001",
         "http://example.com", "HTTP://EXAMPLE.COM", "HTTP://EXAMPLE.COM/A%20B", "https://ex.com/?a=b&c=d#e", "mailto:a@b.c", "tel:+1-2", "WIFI:T:WPA;S:x;P:y;;", "BEGIN:VCARD\nEND:VCARD\n",
         "A", "a", "Aa", "aA", "ABC", "abc", "Abc", "ABC ", " ABC", "  ", " ", "", "A B", "A  B", ":", "-", "--", "--help", "-h", ".", "..", "/", "A/B",
         "\u4e00", "\u4e00\u4e00", "\u4e001", "1\u4e00", "\u4e00A", "\u4e00 ", "\u4e9c\u7199", "\u9fff", "\u4e02", "\u3042", "\uff71", "\u3005", "\u4edd\u3005", "\u5f0c\u5e61",
         "\U0001f600", "\U0001f468\u200d\U0001f469", "\U0001f1e9\U0001f1ea", "\U00020000", "\U0010ffff", "\ufffd", "a\ufffdb", "\u0000\ufffd", "\u0130", "\u0131", "\u00df", "\u017f", "\u212a",
         "nil", "null", "true", "<nil>", "%!s(int=1)", "%d", "%s", "\u202eabc", "\u0661\u0662", "\u00b2", "\u2460", "\u2163", "\u0967"]
    b = [b"\xff\xfea\x00", b"\xfe\xff\x00a", b"\xef\xbb", b"\xef\xbb\xbf\xef\xbb\xbfx", b"\xc3", b"a\xc3", b"\xc3a", b"\xe4\xb8", b"\xe4\xb8\x80\xe4", b"\xed\xa0\x80", b"\xed\xb0\x80\xed\xa0\x80",
         b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\x80", b"\xc1\xbf", b"\xe0\x80\xaf", b"\xe9", b"caf\xe9", b"\x93\xfa\x96{", b"\x88\x9f", b"\xb0\xa1", b"\x1b$B0!\x1b(B", b"\x80", b"\xa0", b"\xff",
         b"\xff" * 9, b"\x00" * 9, b"\xec\x11" * 6, b"\x11\xec" * 6, b"\x10", b"\x40" * 5, b"7\xb2", b"\xd9\xa1"]
    l = [list(x.encode("utf-8")) for x in u] + [list(x) for x in b]
    if rnd is not None:
        rnd.shuffle(l)
    return l
