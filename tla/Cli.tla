-------------------------------- MODULE Cli ---------------------------------
(***************************************************************************)
(* The command line tool: what a list of flags means.  A flag is [f, v]:   *)
(* its name and its value as a sequence of character codes.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, StdImage

Digit(ch) == ch >= 48 /\ ch <= 57
(* Value of a decimal number 0..255, -1 for anything else.                 *)
Byte(v) ==
  IF Len(v) = 0 \/ Len(v) > 3 \/ \E i \in DOMAIN v : ~Digit(v[i]) THEN -1
  ELSE LET n == FoldLeft(LAMBDA a, ch : 10 * a + ch - 48, 0, v)
       IN  IF n > 255 THEN -1 ELSE n
Split(v) ==
  FoldLeft(LAMBDA acc, ch : IF ch = 44 THEN Append(acc, <<>>)
                            ELSE [acc EXCEPT ![Len(acc)] = Append(@, ch)], << <<>> >>, v)
Bool(v) == CASE v = <<>> -> 1 [] v = <<116, 114, 117, 101>> -> 1 [] v = <<102, 97, 108, 115, 101>> -> 0 [] OTHER -> -1

DarkFile  == <<105, 110, 47, 100, 97, 114, 107, 46, 112, 110, 103>>          \* in/dark.png, in/light.png:
LightFile == <<105, 110, 47, 108, 105, 103, 104, 116, 46, 112, 110, 103>>    \* pictures of one shade

Settings0 == [bw |-> 5, bd |-> <<0, 0, 0, 0>>, circle |-> 0, tr |-> 0, term |-> 0, half |-> "", unknown |-> FALSE, spoilt |-> FALSE,
              out |-> <<113, 114, 99, 111, 100, 101, 46, 106, 112, 103>>]
GoodBorders(l) == Len(l) = 4 /\ \A i \in 1..4 : l[i] >= 0
Malformed(s) == s.unknown \/ s.bw < 0 \/ ~GoodBorders(s.bd) \/ s.circle < 0 \/ s.tr < 0 \/ s.term < 0
(* The last value of a flag counts.  Whether a malformed value that a       *)
(* later one replaces spoils the command is left open.                     *)
ApplyFlag(s0, fl) ==
  LET s == [s0 EXCEPT !.spoilt = @ \/ Malformed(s0)]
  IN  CASE fl.f = "block"       -> [s EXCEPT !.bw = Byte(fl.v)]
        [] fl.f = "borders"     -> [s EXCEPT !.bd = LET p == Split(fl.v) IN [i \in DOMAIN p |-> Byte(p[i])]]
        [] fl.f = "circle"      -> [s EXCEPT !.circle = Bool(fl.v)]
        [] fl.f = "transparent" -> [s EXCEPT !.tr = Bool(fl.v)]
        [] fl.f = "terminal"    -> [s EXCEPT !.term = Bool(fl.v)]
        [] fl.f = "halftone"    -> [s EXCEPT !.half = IF fl.v = <<>> THEN "" ELSE IF fl.v = DarkFile THEN "dark" ELSE IF fl.v = LightFile THEN "light" ELSE "other"]
        [] fl.f = "output"      -> [s EXCEPT !.out = fl.v]
        [] OTHER -> [s EXCEPT !.unknown = TRUE]
Flags(fls) == FoldLeft(ApplyFlag, Settings0, fls)
(* Sound, Malformed or neither.                                            *)
Sound(s) == ~Malformed(s) /\ ~s.spoilt

(* The suffix: what follows the last dot of the last path element.         *)
Suffix(path) ==
  LET I == {i \in DOMAIN path : path[i] \in {46, 47}}
      k == CHOOSE i \in I : \A j \in I : j <= i
  IN  IF I = {} THEN <<>> ELSE IF path[k] = 47 THEN <<>> ELSE SubSeq(path, k + 1, Len(path))
Format(s) == IF Suffix(s.out) = <<112, 110, 103>> THEN "png" ELSE "jpeg"

Image(s) == [DefaultImg EXCEPT !.bw = IF s.bw = 0 THEN 20 ELSE s.bw, !.bd = s.bd, !.tr = s.tr = 1 /\ Format(s) = "png",
                               !.shape = IF s.circle = 1 THEN "circle" ELSE "rectangle", !.fmt = Format(s),
                               !.half = IF s.half = "dark" THEN [on |-> TRUE, n |-> 101] ELSE IF s.half = "light" THEN [on |-> TRUE, n |-> 100] ELSE NoHalf]
(* Targets that can be written.                                            *)
Writable(kind) == kind \in {"fresh", "longer", "symlink", "subdir"}
=============================================================================
