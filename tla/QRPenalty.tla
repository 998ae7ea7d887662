----------------------------- MODULE QRPenalty ------------------------------
(***************************************************************************)
(* Penalty of a complete symbol (module colours only) and the choice of    *)
(* the mask.  N1: a run of five same-coloured modules in a row or column   *)
(* costs 3, every further module 1.  N2: every 2x2 area of one colour      *)
(* costs 3.  N3: every occurrence of 10111010000 or 00001011101 in a row   *)
(* or column costs 40.  N4: 10 for each complete step of 5% by which the   *)
(* proportion of dark modules deviates from 50%.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC, QRLayout

(* Cost incurred at position p (1..11, 11 = "11 or later") of a line whose *)
(* last (up to) eleven modules are the bits of w: N1 and N3 together.      *)
LOCAL LineCost(p, w) ==
  (IF p >= 5 /\ (w % 32 = 0 \/ w % 32 = 31)
   THEN IF p >= 6 /\ (w % 64 = 0 \/ w % 64 = 63) THEN 1 ELSE 3
   ELSE 0)
  + (IF p >= 11 /\ (w = 1488 \/ w = 93) THEN 40 ELSE 0)
LineTab == TLCEval([p \in 1..11 |-> [w1 \in 1..2048 |-> LineCost(p, w1 - 1)]])

(* Rolling window: acc = score * 2048 + window.                            *)
LOCAL Roll(acc, p, c) ==
  LET w == ((acc % 2048) * 2 + c) % 2048
  IN  (acc \div 2048 + LineTab[IF p > 11 THEN 11 ELSE p][w + 1]) * 2048 + w

LOCAL RowScore(col, d, y, idx) ==
  FoldLeft(LAMBDA acc, p : Roll(acc, p, col[y * d + p]), 0, idx) \div 2048
LOCAL ColScore(col, d, x, idx) ==
  FoldLeft(LAMBDA acc, p : Roll(acc, p, col[(p - 1) * d + x + 1]), 0, idx) \div 2048

LinesScore(col, d) ==
  LET idx == [p \in 1..d |-> p]
  IN  FoldLeft(LAMBDA s, y : s + RowScore(col, d, y - 1, idx) + ColScore(col, d, y - 1, idx), 0, idx)

BlocksScore(col, d) ==
  FoldLeft(LAMBDA s, k :
     LET x == (k - 1) % (d - 1) y == (k - 1) \div (d - 1)
         a == col[y * d + x + 1]
     IN  IF a = col[y * d + x + 2] /\ a = col[(y + 1) * d + x + 1] /\ a = col[(y + 1) * d + x + 2]
         THEN s + 3 ELSE s,
     0, [k \in 1..((d - 1) * (d - 1)) |-> k])

Dark(col) == FoldLeft(LAMBDA s, c : s + c, 0, col)

LOCAL Abs(a) == IF a < 0 THEN -a ELSE a
(* N4 in a few conventions, which differ only when the proportion is an    *)
(* exact multiple of 5%: 1 = the step counts as complete, 2 = it does not, *)
(* 3 = as 1 below 50% and as 2 above (the one the code documents).         *)
BalanceScore(dark, total, conv) ==
  LET dev   == Abs(20 * dark - 10 * total)     \* |proportion - 1/2| * 20 * total
      full  == dev \div total
      exact == dev % total = 0 /\ full > 0
  IN  IF exact /\ (conv = 2 \/ (conv = 3 /\ 2 * dark > total)) THEN 10 * (full - 1) ELSE 10 * full
Conventions == {1, 2, 3}

(* Colours of the candidate symbol with mask k, made from the symbol m     *)
(* whose mask is `used`.                                                   *)
Candidate(m, d, kinds, lv, used, k) ==
  LET w  == FormatWord(lv, k)
      c1 == FormatCells1(d) c2 == FormatCells2(d)
      \* format bit number (0 = least significant) of every format cell
      fb == TLCEval([c \in {c1[j][2] * d + c1[j][1] + 1 : j \in 1..15} \cup
                          {c2[j][2] * d + c2[j][1] + 1 : j \in 1..15} |->
                LET j == CHOOSE j \in 1..15 : c1[j][2] * d + c1[j][1] + 1 = c
                                              \/ c2[j][2] * d + c2[j][1] + 1 = c
                IN  (w \div 2^(15 - j)) % 2])
  IN  TLCEval([c \in 1..(d * d) |->
        IF kinds[c] = KData
        THEN IF k # used /\ (MaskBit(k, (c - 1) % d, (c - 1) \div d)
                             # MaskBit(used, (c - 1) % d, (c - 1) \div d))
             THEN 1 - (m[c] % 2) ELSE m[c] % 2
        ELSE IF kinds[c] = KFormat THEN fb[c]
        ELSE m[c] % 2])

(* Scores of all candidates: [k |-> <<lines+blocks, dark>>].               *)
Scores(m, d, kinds, lv, used) ==
  TLCEval([k \in 0..7 |->
     LET col == Candidate(m, d, kinds, lv, used, k)
     IN  <<LinesScore(col, d) + BlocksScore(col, d), Dark(col)>>])

BestUnder(sc, total, conv) ==
  LET s == [k \in 0..7 |-> sc[k][1] + BalanceScore(sc[k][2], total, conv)]
  IN  CHOOSE k \in 0..7 : \A j \in 0..7 : s[k] < s[j] \/ (s[k] = s[j] /\ k <= j)

BestMasks(m, d, kinds, lv, used) ==
  LET sc == Scores(m, d, kinds, lv, used)
  IN  \E conv \in Conventions : BestUnder(sc, d * d, conv) = used
=============================================================================
