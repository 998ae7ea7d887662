------------------------------ MODULE TraceSink -----------------------------
(***************************************************************************)
(* Trace specification of faulty sinks (C21): Save fails exactly when the  *)
(* sink failed.                                                            *)
(***************************************************************************)
EXTENDS TraceCommon
Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = <<>>
Start ==
  /\ pc = "start"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE LET bad == {k \in DOMAIN e.obs : e.obs[k].failed # e.obs[k].err}
          IN  IF bad = {} THEN Accept
              ELSE LET k == CHOOSE k \in bad : \A j \in bad : k <= j
                   IN  Reject(<<IF e.obs[k].err THEN "spurious-error" ELSE "failure-hidden", e.obs[k].at>>)
Next == Start
Spec == Init /\ [][Next]_vars
=============================================================================
