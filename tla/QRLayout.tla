------------------------------ MODULE QRLayout ------------------------------
(***************************************************************************)
(* Geometry of a symbol of version v: which module belongs to which        *)
(* function pattern, the colour of the fixed ones, the order of the data   *)
(* modules, the places of format and version information and their BCH     *)
(* codes.  x is the column, y the row, both from 0; (0,0) is top left.     *)
(* A module's flat index is y*Dim+x+1.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, QRTables, GF256

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
LOCAL MaxOf(a, b) == IF a > b THEN a ELSE b

(* Row/column coordinates of alignment pattern centres, ascending.         *)
AlignPos(v) ==
  IF v = 1 THEN <<>>
  ELSE LET n    == v \div 7 + 2
           step == IF v = 32 THEN 26
                   ELSE ((v * 4 + n * 2 + 1) \div (n * 2 - 2)) * 2
       IN  [i \in 1..n |-> IF i = 1 THEN 6 ELSE Dim(v) - 7 - (n - i) * step]

(* Kinds of modules.                                                       *)
KData == 0  KFinder == 1  KSep == 2  KTiming == 3
KAlign == 4 KFormat == 5  KVersion == 6  KDark == 7

(* near[c+1] = the alignment coordinate within distance 2 of c, else -1    *)
LOCAL NearTab(v) ==
  LET P == AlignPos(v)
  IN  TLCEval([c \in 1..Dim(v) |->
        IF \E i \in 1..Len(P) : Abs(P[i] - (c - 1)) <= 2
        THEN P[CHOOSE i \in 1..Len(P) : Abs(P[i] - (c - 1)) <= 2] ELSE -1])

LOCAL KindAt(v, d, near, x, y) ==
  IF (x < 8 /\ y < 8) \/ (x >= d - 8 /\ y < 8) \/ (x < 8 /\ y >= d - 8)
  THEN IF (x < 7 /\ y < 7) \/ (x >= d - 7 /\ y < 7) \/ (x < 7 /\ y >= d - 7)
       THEN KFinder ELSE KSep
  ELSE IF near[x + 1] >= 0 /\ near[y + 1] >= 0
          /\ ~(near[x + 1] = 6 /\ near[y + 1] = 6)
          /\ ~(near[x + 1] = 6 /\ near[y + 1] = d - 7)
          /\ ~(near[x + 1] = d - 7 /\ near[y + 1] = 6)
       THEN KAlign
  ELSE IF x = 6 \/ y = 6 THEN KTiming
  ELSE IF x = 8 /\ y = d - 8 THEN KDark
  ELSE IF (x = 8 /\ (y <= 8 \/ y > d - 8)) \/ (y = 8 /\ (x <= 8 \/ x >= d - 8))
       THEN KFormat
  ELSE IF v >= 7 /\ ((y < 6 /\ x >= d - 11 /\ x < d - 8) \/ (x < 6 /\ y >= d - 11 /\ y < d - 8))
       THEN KVersion
  ELSE KData

(* Kind of every module, as a flat row-major sequence.                     *)
KindTab(v) ==
  LET d == Dim(v) near == NearTab(v)
  IN  TLCEval([i \in 1..(d * d) |-> KindAt(v, d, near, (i - 1) % d, (i - 1) \div d)])

(* Prescribed colour (1 = dark) of a module of a fixed pattern.            *)
FixedColour(v, kind, x, y) ==
  LET d == Dim(v)
      P == AlignPos(v)
      Near(c) == P[CHOOSE i \in 1..Len(P) : Abs(P[i] - c) <= 2]
  IN  CASE kind = KFinder ->
             LET cx == IF x < 7 THEN 3 ELSE d - 4
                 cy == IF y < 7 THEN 3 ELSE d - 4
             IN  IF MaxOf(Abs(x - cx), Abs(y - cy)) = 2 THEN 0 ELSE 1
        [] kind = KSep    -> 0
        [] kind = KTiming -> (x + y + 1) % 2
        [] kind = KAlign  -> IF MaxOf(Abs(x - Near(x)), Abs(y - Near(y))) = 1 THEN 0 ELSE 1
        [] kind = KDark   -> 1

(* Flat indices of the data modules in the order the bit stream fills them.*)
DataOrder(v, kinds) ==
  LET d == Dim(v)
      cell(i) == LET p == (i - 1) \div (2 * d)
                     r == (i - 1) % (2 * d)
                     right == IF d - 1 - 2 * p > 6 THEN d - 1 - 2 * p ELSE d - 2 - 2 * p
                     j == r \div 2
                     y == IF p % 2 = 0 THEN d - 1 - j ELSE j
                 IN  y * d + right - (r % 2) + 1
  IN  TLCEval(SelectSeq([i \in 1..(d * (d - 1)) |-> cell(i)],
                        LAMBDA c : kinds[c] = KData))

-----------------------------------------------------------------------------
(* Format information: 15 bits, most significant first at the listed cells.*)
FormatCells1(d) ==   \* around the top-left finder; <<x, y>>
  << <<0,8>>, <<1,8>>, <<2,8>>, <<3,8>>, <<4,8>>, <<5,8>>, <<7,8>>, <<8,8>>,
     <<8,7>>, <<8,5>>, <<8,4>>, <<8,3>>, <<8,2>>, <<8,1>>, <<8,0>> >>
FormatCells2(d) ==   \* split between bottom-left and top-right
  << <<8,d-1>>, <<8,d-2>>, <<8,d-3>>, <<8,d-4>>, <<8,d-5>>, <<8,d-6>>, <<8,d-7>>,
     <<d-8,8>>, <<d-7,8>>, <<d-6,8>>, <<d-5,8>>, <<d-4,8>>, <<d-3,8>>, <<d-2,8>>, <<d-1,8>> >>

(* Version information: 18 bits, most significant first.                   *)
VersionCells1(d) == [i \in 1..18 |-> <<d - 9 - ((i - 1) % 3), 5 - ((i - 1) \div 3)>>]
VersionCells2(d) == [i \in 1..18 |-> <<5 - ((i - 1) \div 3), d - 9 - ((i - 1) % 3)>>]

BitsAt(m, d, cells) ==
  FoldLeft(LAMBDA acc, c : 2 * acc + (m[c[2] * d + c[1] + 1] % 2), 0, cells)

(* Remainder of val * x^n modulo the polynomial `poly` of degree n.        *)
LOCAL BCHRem(val, poly, n) ==
  FoldLeft(LAMBDA r, i : LET s == 2 * r IN IF s >= 2^n THEN Xor16(s, poly) ELSE s,
           val, [i \in 1..n |-> i])

LevelBits(lv) == <<1, 0, 3, 2>>[lv]       \* L M Q H
FormatWord(lv, mask) ==
  LET data == LevelBits(lv) * 8 + mask
  IN  Xor16(data * 1024 + BCHRem(data, 1335, 10), 21522)     \* 16#537, 16#5412
VersionWord(v) == v * 4096 + BCHRem(v, 7973, 12)           \* 16#1F25

(* The level and mask a format word stands for, <<0,0>> if it is not valid.*)
FormatDecode(w) ==
  IF \E lv \in Levels, k \in 0..7 : FormatWord(lv, k) = w
  THEN CHOOSE p \in Levels \X (0..7) : FormatWord(p[1], p[2]) = w
  ELSE <<0, 0>>

-----------------------------------------------------------------------------
(* The eight data masks (TRUE = invert), i the row and j the column.       *)
MaskBit(k, j, i) ==
  CASE k = 0 -> (i + j) % 2 = 0
    [] k = 1 -> i % 2 = 0
    [] k = 2 -> j % 3 = 0
    [] k = 3 -> (i + j) % 3 = 0
    [] k = 4 -> (i \div 2 + j \div 3) % 2 = 0
    [] k = 5 -> ((i * j) % 2) + ((i * j) % 3) = 0
    [] k = 6 -> (((i * j) % 2) + ((i * j) % 3)) % 2 = 0
    [] k = 7 -> (((i + j) % 2) + ((i * j) % 3)) % 2 = 0
=============================================================================
