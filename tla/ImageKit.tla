------------------------------ MODULE ImageKit ------------------------------
(***************************************************************************)
(* The image helpers as operations on pictures [x, y, w, h, px]: the       *)
(* corner, the size, the pixels row by row as <<r, g, b, a>> of 16 bits    *)
(* each, premultiplied.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

(* (19595 r + 38470 g + 7471 b + 2^15) / 2^24, in 32-bit arithmetic.       *)
Weigh(r, g, b) == 19595 * r + 38470 * g + 7471 * b
Lum(p) == LET hi == Weigh(p[1] \div 256, p[2] \div 256, p[3] \div 256)
              lo == Weigh(p[1] % 256, p[2] % 256, p[3] % 256) + 32768
          IN  (hi + (lo \div 256)) \div 65536
GrayPx(v) == <<257 * v, 257 * v, 257 * v, 65535>>

SameFrame(a, b) == a.x = b.x /\ a.y = b.y /\ a.w = b.w /\ a.h = b.h
IsGray(a, b) == SameFrame(a, b) /\ \A i \in DOMAIN a.px : b.px[i] = GrayPx(Lum(a.px[i]))
IsBin(a, n, b) == SameFrame(a, b) /\ \A i \in DOMAIN a.px : b.px[i] = GrayPx(IF Lum(a.px[i]) > n THEN 255 ELSE 0)

Uniform(a) == Len(a.px) > 0 /\ \A i \in DOMAIN a.px : a.px[i] = a.px[1]
Close(p, q, tol) == \A k \in 1..4 : p[k] - q[k] <= tol /\ q[k] - p[k] <= tol
(* The source columns (rows) a target column (row) i of n may draw on when *)
(* m become n: those within one step of the place it corresponds to.       *)
Near(i, n, m) == LET c == (2 * i + 1) * m
                     s == 2 * (IF m > n THEN m ELSE n)
                     lo == (c - s) \div (2 * n) - 1
                     hi == (c + s) \div (2 * n) + 1
                 IN  (IF lo < 0 THEN 0 ELSE lo)..(IF hi > m - 1 THEN m - 1 ELSE hi)
Within(a, xs, ys, p) ==
  \A k \in 1..4 : /\ \E x \in xs, y \in ys : a.px[(y * a.w) + x + 1][k] <= p[k] + 514
                  /\ \E x \in xs, y \in ys : a.px[(y * a.w) + x + 1][k] >= p[k] - 514
InPlace(a, b) == \A y \in 0..(b.h - 1) : \A x \in 0..(b.w - 1) :
                   Within(a, Near(x, b.w, a.w), Near(y, b.h, a.h), b.px[(y * b.w) + x + 1])
IsScaled(a, r, how, b) ==
  /\ b.x = r[1] /\ b.y = r[2] /\ b.w = r[3] /\ b.h = r[4]
  /\ Uniform(a) => \A i \in DOMAIN b.px : Close(b.px[i], a.px[1], 514)
  /\ a.w = r[3] /\ a.h = r[4] /\ how \in {"", "nearest"} => \A i \in DOMAIN b.px : Close(b.px[i], a.px[i], 514)
  /\ how # "catmull" /\ Len(a.px) > 0 => InPlace(a, b)

IsStored(a, kind, b) ==
  /\ b.w = a.w /\ b.h = a.h
  /\ kind = "png" => b.px = a.px
  /\ kind = "jpeg" /\ Uniform(a) /\ a.px[1][4] = 65535 => \A i \in DOMAIN b.px : Close(b.px[i], a.px[1], 3000)
=============================================================================
