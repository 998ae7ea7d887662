------------------------------ MODULE GenMode -------------------------------
(***************************************************************************)
(* Automatic mode selection as a scan over character classes.  The state   *)
(* is the text so far and the modes still able to represent all of it; the *)
(* invariant is that the choice depends on the set of classes only.  Every *)
(* reachable text is emitted and replayed into the code with concrete      *)
(* representatives of the classes.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANT MaxLen

\* digit, letter, alphanumeric punctuation, QR kanji, ideograph outside the QR ranges, kana,
\* lower case, two-byte UTF-8, full-width digit, beyond the BMP, invalid byte, control character
Classes == 1..12
Accepts(c) == CASE c = 1 -> {1, 2, 4} [] c \in {2, 3} -> {2, 4} [] c = 4 -> {8, 4} [] OTHER -> {4}
Rank == <<1, 2, 8, 4>>
First(S) == Rank[CHOOSE i \in 1..4 : Rank[i] \in S /\ \A j \in 1..(i - 1) : Rank[j] \notin S]

VARIABLES txt, left
Init == txt = <<>> /\ left = {1, 2, 4, 8}
Read(c) == /\ Len(txt) < MaxLen
           /\ txt' = Append(txt, c)
           /\ left' = left \cap Accepts(c)
Next == \E c \in Classes : Read(c)
Spec == Init /\ [][Next]_<<txt, left>>

(* The declarative definition, on the set of classes that occur.           *)
Declared(S) == IF S \subseteq {1} THEN 1 ELSE IF S \subseteq {1, 2, 3} THEN 2
               ELSE IF S \subseteq {4} THEN 8 ELSE 4
SetOnly == First(left) = Declared(ToSet(txt))
NeverStuck == 4 \in left
Emit == PrintT("## " \o ToJson([txt |-> txt]))
=============================================================================
