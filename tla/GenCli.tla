------------------------------- MODULE GenCli -------------------------------
(***************************************************************************)
(* Command lines: lists of flags with values of every class, the kind of   *)
(* text and the kind of output target.  Every reachable one is emitted.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt, Cli
CONSTANT MaxLen

Values(f) == CASE f = "block"   -> {"ok", "zero", "max", "over", "neg", "word", "none"}
               [] f = "borders" -> {"ok", "zeros", "max", "three", "five", "over", "neg", "word", "none", "space"}
               [] f \in {"circle", "transparent"} -> {"plain", "true", "false", "word"}
               [] f = "output"  -> {"png", "jpg", "jpeg", "upper", "nosuffix", "hidden", "dotdir"}
               [] f = "unknown" -> {"plain"}
               [] f = "terminal" -> {"plain", "false"}
               [] f = "halftone" -> {"missing", "picture", "dark", "light", "none"}
Names == {"block", "borders", "circle", "transparent", "output", "unknown", "terminal", "halftone"}
Texts == {"short", "long", "toolong", "empty", "dash", "help"}
Targets == {"fresh", "longer", "symlink", "subdir", "nodir", "isdir", "underfile", "toolongname", "full", "loop", "empty"}

VARIABLES fl, txt, tgt
Init == fl = <<>> /\ txt \in Texts /\ tgt \in Targets
Next == /\ Len(fl) < MaxLen
        /\ \E f \in Names : \E c \in Values(f) : fl' = Append(fl, [f |-> f, c |-> c])
        /\ UNCHANGED <<txt, tgt>>
Spec == Init /\ [][Next]_<<fl, txt, tgt>>
Emit == PrintT("## " \o ToJson([flags |-> fl, text |-> txt, path |-> tgt]))

(* The meaning of values: parsing decimal lists.                           *)
ASSUME Byte(<<48>>) = 0 /\ Byte(<<50, 53, 53>>) = 255 /\ Byte(<<50, 53, 54>>) = -1 /\ Byte(<<>>) = -1 /\ Byte(<<45, 49>>) = -1
ASSUME Split(<<49, 44, 44, 50>>) = << <<49>>, <<>>, <<50>> >>
ASSUME Suffix(<<97, 46, 98, 46, 99>>) = <<99>> /\ Suffix(<<97, 46, 98, 47, 99>>) = <<>>
=============================================================================
