---------------------------- MODULE TraceCommon -----------------------------
(***************************************************************************)
(* What all trace specifications share.  A trace is a file with one event  *)
(* per line; every event starts its own behaviour, which walks through the *)
(* control states of the specification until it is accepted or rejected.   *)
(* Each event has to print exactly one verdict (the runner insists).       *)
(*                                                                         *)
(* TLC does not cache constant operators whose bound variables have the    *)
(* name of a state variable; hence the unusual variable names.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

Prop  == IOEnv.PROP
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Deep  == IOEnv.VERIF_TIER = "thorough"

VARIABLES evt,    \* event under validation
          pc,     \* next step of the specification
          rd      \* what has been learnt from the event so far
vars == <<evt, pc, rd>>

e == Trace[evt]

Verdict(x) == PrintT("@@ " \o ToString(e.id) \o " " \o ToString(x))
Reject(why) == Verdict(why) /\ pc' = "rejected" /\ UNCHANGED <<evt, rd>>
Accept      == Verdict("ok") /\ pc' = "ok" /\ UNCHANGED <<evt, rd>>
Goto(l)     == pc' = l /\ UNCHANGED evt

(* A step that rejects with the first failing condition of a list of       *)
(* <<condition, reason>> pairs, and goes on to label l otherwise.          *)
FirstBad(conds) ==
  IF \E k \in DOMAIN conds : ~conds[k][1]
  THEN conds[CHOOSE k \in DOMAIN conds : ~conds[k][1] /\ \A j \in 1..(k - 1) : conds[j][1]][2]
  ELSE ""
=============================================================================
