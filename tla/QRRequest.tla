------------------------------ MODULE QRRequest -----------------------------
(***************************************************************************)
(* What is asked for: a text and a list of option settings, and what the   *)
(* outcome has to be.  Option values are those of the Go API: modes        *)
(* 0=auto 2=none 4=numeric 8=alphanumeric 16=kanji 32=byte, levels 1..4.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, QRTables, QRKanji

(* API mode value -> mode indicator, 0 for automatic, -1 for unsupported.  *)
ModeOfApi(n) ==
  CASE n = 0 -> 0 [] n = 4 -> 1 [] n = 8 -> 2 [] n = 16 -> 8 [] n = 32 -> 4 [] OTHER -> -1

DefaultSettings == [mode |-> 0, lv |-> 3, ver |-> 0, min |-> 0]

(* One option setting: out-of-range values are ignored.                    *)
ApplyOpt(s, o) ==
  CASE o.o = "mode" -> [s EXCEPT !.mode = ModeOfApi(o.n)]
    [] o.o = "ec"   -> IF o.n \in 1..4  THEN [s EXCEPT !.lv  = o.n] ELSE s
    [] o.o = "ver"  -> IF o.n \in 1..40 THEN [s EXCEPT !.ver = o.n] ELSE s
    [] o.o = "min"  -> IF o.n \in 1..40 THEN [s EXCEPT !.min = o.n] ELSE s

Settings(opts) == FoldLeft(ApplyOpt, DefaultSettings, opts)

-----------------------------------------------------------------------------
IsDigit(b) == b >= 48 /\ b <= 57
IsAlpha(b) == IsDigit(b) \/ (b >= 65 /\ b <= 90)
              \/ b = 32 \/ b = 36 \/ b = 37 \/ b = 42 \/ b = 43 \/ b = 45 \/ b = 46 \/ b = 47 \/ b = 58

AllDigits(raw) == \A i \in 1..Len(raw) : IsDigit(raw[i])
AllAlpha(raw)  == \A i \in 1..Len(raw) : IsAlpha(raw[i])
(* UTF-8 of ideographs (U+4E00..U+9FFF) with a kanji-mode value.           *)
AllKanji(raw)  ==
  /\ Len(raw) % 3 = 0
  /\ \A k \in 1..(Len(raw) \div 3) :
       LET a == raw[3*k - 2] b == raw[3*k - 1] c == raw[3*k]
       IN  /\ a >= 228 /\ a <= 233 /\ b >= 128 /\ b <= 191 /\ c >= 128 /\ c <= 191
           /\ LET cp == (a - 224) * 4096 + (b - 128) * 64 + (c - 128)
              IN  cp >= 19968 /\ cp <= 40959 /\ KanjiOf[cp - 19968 + 1] > 0

Representable(raw, mode) ==
  CASE mode = 1 -> AllDigits(raw)
    [] mode = 2 -> AllAlpha(raw)
    [] mode = 4 -> TRUE
    [] mode = 8 -> AllKanji(raw)
    [] OTHER    -> FALSE

AutoMode(raw) ==
  IF AllDigits(raw) THEN 1 ELSE IF AllAlpha(raw) THEN 2 ELSE IF AllKanji(raw) THEN 8 ELSE 4

ModeInForce(s, raw) == IF s.mode = 0 THEN AutoMode(raw) ELSE s.mode

CharCount(mode, raw) == IF mode = 8 THEN Len(raw) \div 3 ELSE Len(raw)

(* The version the symbol has to have, 0 if there is no symbol.            *)
VersionInForce(s, mode, n) ==
  IF s.ver # 0 THEN (IF Fits(s.ver, s.lv, mode, n) THEN s.ver ELSE 0)
  ELSE LET v == SmallestVersion(s.lv, mode, n)
       IN  IF v = 0 THEN 0 ELSE IF s.min > v THEN s.min ELSE v

(* Expected outcome: [ok, mode, lv, ver].                                  *)
Outcome(raw, opts) ==
  LET s    == Settings(opts)
      mode == ModeInForce(s, raw)
  IN  IF ~Representable(raw, mode) THEN [ok |-> FALSE, mode |-> 0, lv |-> s.lv, ver |-> 0]
      ELSE LET v == VersionInForce(s, mode, CharCount(mode, raw))
           IN  [ok |-> v # 0, mode |-> mode, lv |-> s.lv, ver |-> v]
=============================================================================
