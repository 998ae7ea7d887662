------------------------------ MODULE StdImage ------------------------------
(***************************************************************************)
(* What the image options of the standard writer mean, and which colour    *)
(* every pixel of the picture has.  Colours are <<r, g, b, a>>; a pixel    *)
(* with a = 0 is Clear whatever its other components.                      *)
(*                                                                         *)
(* An option is [o, t, n, c, l, s, hex, x, y]: kind, representation or     *)
(* source, number, colour, list, gradient stops, characters of a hex       *)
(* colour, finder and block shape.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Clear == <<0, 0, 0, 0>>
Black == <<0, 0, 0, 255>>
White == <<255, 255, 255, 255>>
NoLogo == [src |-> "none", w |-> 0, h |-> 0, kind |-> 0, c |-> Black]
NoHalf == [on |-> FALSE, n |-> 0]

DefaultImg ==
  [fg |-> Black, bg |-> White, tr |-> FALSE, bw |-> 20, bd |-> <<40, 40, 40, 40>>, shape |-> "rectangle",
   fin |-> "", blk |-> "", ratio |-> 100, logo |-> NoLogo, mult |-> 5, safe |-> FALSE, half |-> NoHalf, grad |-> <<>>, fmt |-> "jpeg"]

HexDigit(ch) == IF ch <= 57 THEN ch - 48 ELSE IF ch <= 70 THEN ch - 55 ELSE ch - 87
HexColour(h) ==
  IF Len(h) = 7 THEN <<16 * HexDigit(h[2]) + HexDigit(h[3]), 16 * HexDigit(h[4]) + HexDigit(h[5]), 16 * HexDigit(h[6]) + HexDigit(h[7]), 255>>
  ELSE <<17 * HexDigit(h[2]), 17 * HexDigit(h[3]), 17 * HexDigit(h[4]), 255>>
Colour(o) == IF o.t = "gray" THEN <<o.c[1], o.c[1], o.c[1], 255>> ELSE o.c

(* Borders in the order top, right, bottom, left.                          *)
Borders(l) ==
  CASE Len(l) = 0 -> <<40, 40, 40, 40>>
    [] Len(l) = 1 -> <<l[1], l[1], l[1], l[1]>>
    [] Len(l) \in {2, 3} -> <<l[1], l[2], l[1], l[2]>>
    [] OTHER -> <<l[1], l[2], l[3], l[4]>>

ApplyImg(st, o) ==
  CASE o.o = "fg" -> IF o.t = "nil" THEN st ELSE [st EXCEPT !.fg = Colour(o)]
    [] o.o = "bg" -> IF o.t = "nil" THEN st ELSE [st EXCEPT !.bg = Colour(o)]
    [] o.o = "fghex" -> [st EXCEPT !.fg = HexColour(o.hex)]
    [] o.o = "bghex" -> IF Len(o.hex) = 0 THEN st ELSE [st EXCEPT !.bg = HexColour(o.hex)]
    [] o.o = "transparent" -> [st EXCEPT !.tr = TRUE]
    [] o.o = "width" -> [st EXCEPT !.bw = IF o.n = 0 THEN 20 ELSE o.n]
    [] o.o = "border" -> [st EXCEPT !.bd = Borders(o.l)]
    [] o.o = "circle" -> [st EXCEPT !.shape = "circle"]
    [] o.o = "rec" -> [st EXCEPT !.shape = "recorded"]
    [] o.o = "shape" -> [st EXCEPT !.shape = "custom", !.fin = o.x, !.blk = o.y, !.ratio = o.n]
    [] o.o = "logo" -> IF o.t \in {"nil", "missing", "notpng"} THEN st
                       ELSE [st EXCEPT !.logo = [src |-> o.t, w |-> o.l[1], h |-> o.l[2], kind |-> o.n, c |-> IF o.n = 3 THEN o.c ELSE Black]]
    [] o.o = "mult" -> [st EXCEPT !.mult = o.n]
    [] o.o = "safe" -> [st EXCEPT !.safe = TRUE]
    [] o.o = "halftone" -> IF o.t = "missing" THEN st ELSE [st EXCEPT !.half = [on |-> o.t # "nil", n |-> o.n]]
    [] o.o = "grad" -> IF o.t = "nil" \/ Len(o.s) = 0 THEN st ELSE [st EXCEPT !.grad = <<o>>]
    [] o.o = "enc" -> IF o.t \in {"png", "jpeg"} THEN [st EXCEPT !.fmt = o.t] ELSE st

ImgSettings(opts) == FoldLeft(ApplyImg, DefaultImg, opts)

----------------------------------------------------------------------------
Width(st, d)  == d * st.bw + st.bd[4] + st.bd[2]
Height(st, d) == d * st.bw + st.bd[1] + st.bd[3]
Back(st) == IF st.tr THEN Clear ELSE st.bg
(* Module column / row of a pixel, -1 in the border.                       *)
Col(st, d, x) == IF x < st.bd[4] \/ x >= st.bd[4] + d * st.bw THEN -1 ELSE (x - st.bd[4]) \div st.bw
Row(st, d, y) == IF y < st.bd[1] \/ y >= st.bd[1] + d * st.bw THEN -1 ELSE (y - st.bd[1]) \div st.bw

LogoDrawn(st, d) == /\ st.logo.src # "none"
                    /\ Width(st, d) >= st.mult * st.logo.w
                    /\ Height(st, d) >= st.mult * st.logo.h
(* The centre, when it does not fall between pixels; otherwise either side.*)
Offsets(total, part) == {(total - part) \div 2, (total - part + 1) \div 2}
(* Does the block of module (mx, my) intersect a logo drawn at (ox, oy)?   *)
Under(st, d, ox, oy, mx, my) ==
  LET bx == st.bd[4] + mx * st.bw
      by == st.bd[1] + my * st.bw
  IN  bx < ox + st.logo.w /\ ox < bx + st.bw /\ by < oy + st.logo.h /\ oy < by + st.bw
Cleared(st, d, ox, oy, mx, my) == st.safe /\ LogoDrawn(st, d) /\ Under(st, d, ox, oy, mx, my)

(* Halftone pictures of the harness are strongly dark or light everywhere. *)
HalfDark(st, u, w) == IF st.half.n >= 100 THEN st.half.n = 101 ELSE (u * 7 + w * 13 + u * w + st.half.n) % 5 < 2

(* A module: colour of pixel (x, y) of a symbol m (row by row) before the  *)
(* logo, rectangle shape.                                                  *)
DataRole == 4
FinderRole == 10
Plain(st, d, m, ox, oy, x, y) ==
  LET mx == Col(st, d, x)
      my == Row(st, d, y)
  IN  IF mx < 0 \/ my < 0 THEN Back(st)
      ELSE LET v == m[my * d + mx + 1]
               dark == v % 2 = 1
               own == IF dark THEN st.fg ELSE Back(st)
           IN  IF dark /\ Cleared(st, d, ox, oy, mx, my) THEN Back(st)
               ELSE IF ~st.half.on \/ v - (v % 2) # DataRole THEN own
               ELSE LET s == st.bw \div 3
                        i == ((x - st.bd[4]) % st.bw) \div s
                        j == ((y - st.bd[1]) % st.bw) \div s
                    IN  IF i = 1 /\ j = 1 THEN own
                        ELSE IF HalfDark(st, 3 * mx + i, 3 * my + j) THEN Black
                        ELSE IF st.tr THEN Clear ELSE White

InLogo(st, d, ox, oy, x, y) == /\ LogoDrawn(st, d)
                               /\ x >= ox /\ x < ox + st.logo.w /\ y >= oy /\ y < oy + st.logo.h
Near(p, q, tol) == \A k \in 1..4 : p[k] - q[k] <= tol /\ q[k] - p[k] <= tol
(* Circles on blocks of two pixels fill three quarters of each pixel: the   *)
(* colour has to be nearer to the right one.                               *)
Dist(p, q) == FoldLeft(LAMBDA a, k : a + (IF p[k] > q[k] THEN p[k] - q[k] ELSE q[k] - p[k]), 0, <<1, 2, 3, 4>>)
Faint(st) == st.shape = "circle" /\ st.bw = 2
Shows(st, p, own, other) == IF Faint(st) THEN Dist(p, own) <= Dist(p, other) + 4 ELSE p = own
PixelOK(st, d, m, ox, oy, x, y, p) ==
  LET i == x - ox
      j == y - oy
  IN  IF InLogo(st, d, ox, oy, x, y) /\ ~(st.logo.kind = 1 /\ (i + j) % 5 = 0)
      THEN IF st.logo.src = "jpeg" THEN Near(p, <<200, 40, 40, 255>>, 6)
           ELSE IF st.logo.kind = 2 /\ (i + j) % 3 = 0
           THEN LET under == Plain(st, d, m, ox, oy, x, y)    \* (100, 20, 0, 128) over what is there
                IN  Near(p, [k \in 1..4 |-> <<100, 20, 0, 128>>[k] + (under[k] * 127) \div 255], 1)
           ELSE IF st.logo.kind = 3 /\ (i + j) % 5 = 0 THEN p = st.logo.c
           ELSE p = <<7 + 16 * (i \div 256) + (j \div 256), i % 256, j % 256, 255>>
      ELSE p = Plain(st, d, m, ox, oy, x, y)

(* Dark neighbours of a module, as the bit set of the custom-shape API.    *)
Set(st, d, m, ox, oy, mx, my) ==
  mx >= 0 /\ mx < d /\ my >= 0 /\ my < d /\ m[my * d + mx + 1] % 2 = 1 /\ ~Cleared(st, d, ox, oy, mx, my)
Neighbours(st, d, m, ox, oy, mx, my) ==
  LET b(dx, dy, w) == IF Set(st, d, m, ox, oy, mx + dx, my + dy) THEN w ELSE 0
  IN  b(-1, -1, 1) + b(0, -1, 2) + b(1, -1, 4) + b(-1, 0, 8) + b(0, 0, 16) + b(1, 0, 32) + b(-1, 1, 64) + b(0, 1, 128) + b(1, 1, 256)

----------------------------------------------------------------------------
(* Linear gradients.  The direction has angle atan2(p, q), y upwards, so   *)
(* the position of a pixel along it is x * q - y * p, scaled to N / D.     *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Proj(g, x, y) == x * g.l[2] - y * g.l[1]
Ends(g, w, h) == {Proj(g, x, y) : x \in {0, w}, y \in {0, h}}
Sorted(stops) == SortSeq(stops, LAMBDA a, b : a[1] < b[1])
(* One component (2..4) of the colour at N / D, rounded down.               *)
Blend(stops, c, N, D) ==
  LET k == Len(stops)
      at(i) == stops[i][1] * D          \* position of a stop, scaled by 100 * D
      n == 100 * N
  IN  IF n <= at(1) THEN stops[1][c]
      ELSE IF n >= at(k) THEN stops[k][c]
      ELSE LET i == CHOOSE i \in 1..(k - 1) : n >= at(i) /\ n <= at(i + 1) /\ at(i) < at(i + 1)
           IN  (stops[i][c] * (at(i + 1) - n) + stops[i + 1][c] * (n - at(i))) \div (at(i + 1) - at(i))
Channel(q, c) == CASE c = 2 -> q \div 65536 [] c = 3 -> (q \div 256) % 256 [] c = 4 -> q % 256
(* A pixel has an extent: the position may be that of any of its points.   *)
GradientOK(g, stops, lo, D, x, y, q) ==
  q >= 0 /\ \A c \in 2..4 :
    LET N == Proj(g, x, y) - lo
        S == {N, N + g.l[2], N - g.l[1], N + g.l[2] - g.l[1]}
        V == {Blend(stops, c, n, D) : n \in S}
             \cup {stops[i][c] : i \in {i \in DOMAIN stops : stops[i][1] * D >= 100 * MinOf(S) /\ stops[i][1] * D <= 100 * MaxOf(S)}}
    IN  Channel(q, c) >= MinOf(V) - 2 /\ Channel(q, c) <= MaxOf(V) + 2
=============================================================================
