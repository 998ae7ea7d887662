----------------------------- MODULE GenOptions -----------------------------
(***************************************************************************)
(* Functional options as a state machine: each setting is applied to the   *)
(* settings so far.  Invariants: the last valid setting of each kind wins, *)
(* kinds are independent.  Every reachable option list is emitted.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt, QRRequest
CONSTANT MaxLen

Alphabet ==
  {[o |-> "mode", n |-> m] : m \in {0, 2, 4, 8, 16, 32}}
  \cup {[o |-> "ec", n |-> m] : m \in {-1, 0, 1, 2, 3, 4, 5}}
  \cup {[o |-> "ver", n |-> m] : m \in {-1, 0, 1, 2, 7, 40, 41}}
  \cup {[o |-> "min", n |-> m] : m \in {-1, 0, 1, 3, 10, 41}}

VARIABLES opts, cfg
Init == opts = <<>> /\ cfg = DefaultSettings
Set(o) == Len(opts) < MaxLen /\ opts' = Append(opts, o) /\ cfg' = ApplyOpt(cfg, o)
Next == \E o \in Alphabet : Set(o)
Spec == Init /\ [][Next]_<<opts, cfg>>

Valid(o) == \/ o.o = "mode" \/ (o.o = "ec" /\ o.n \in 1..4) \/ (o.o \in {"ver", "min"} /\ o.n \in 1..40)
LastOf(kind, dflt) ==
  LET I == {i \in DOMAIN opts : opts[i].o = kind /\ Valid(opts[i])}
  IN  IF I = {} THEN dflt ELSE opts[CHOOSE i \in I : \A j \in I : j <= i].n
LastValidWins ==
  /\ cfg.lv  = LastOf("ec", 3)
  /\ cfg.ver = LastOf("ver", 0)
  /\ cfg.min = LastOf("min", 0)
  /\ cfg.mode = ModeOfApi(LastOf("mode", 0))
InRange == cfg.lv \in Levels /\ cfg.ver \in 0..40 /\ cfg.min \in 0..40
Emit == PrintT("## " \o ToJson([opts |-> opts]))
=============================================================================
