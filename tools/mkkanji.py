#!/usr/bin/env python3
"""tla/data/kanji.json: QR kanji-mode value (13 bit) -> Unicode code point, from
Python's shift_jis codec (JIS X 0208), independent of the Go implementation."""
import json, os
tab = [0] * 8192
for hi in list(range(0x81, 0xA0)) + list(range(0xE0, 0xEC)):
    for lo in range(0x40, 0xFD):
        code = hi << 8 | lo
        if not (0x8140 <= code <= 0x9FFC or 0xE040 <= code <= 0xEBBF):
            continue
        try:
            s = bytes([hi, lo]).decode("shift_jis")
        except UnicodeDecodeError:
            continue
        if len(s) != 1:
            continue
        r = code - (0x8140 if code <= 0x9FFC else 0xC140)
        tab[(r >> 8) * 0xC0 + (r & 0xFF)] = ord(s)
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tla", "data", "kanji.json")
json.dump(tab, open(p, "w"), separators=(",", ":"))
print(sum(1 for t in tab if t))
# tla/data/kanjicp.json: for U+4E00..U+9FFF the kanji-mode value plus 1, 0 if there is none
inv = [0] * (0xA000 - 0x4E00)
for v, cp in enumerate(tab):
    if 0x4E00 <= cp < 0xA000:
        inv[cp - 0x4E00] = v + 1
json.dump(inv, open(os.path.join(os.path.dirname(p), "kanjicp.json"), "w"), separators=(",", ":"))
