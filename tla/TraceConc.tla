------------------------------ MODULE TraceConc -----------------------------
(***************************************************************************)
(* Trace specification of concurrent Saves (C29): what each of them did is *)
(* what ConcurrentSave allows, namely what it does alone, before and       *)
(* after, apart from its own failing sink.                                 *)
(***************************************************************************)
EXTENDS TraceCommon

Bad(j) == FirstBad(<<
  <<j.alone[2] = 0 /\ j.alone[3] = 1 /\ (j.kind = "custom" => j.alone[1] = j.dg), "alone">>,
  <<j.fault => j.obs.err \in (IF j.kind = "custom" THEN {1} ELSE {1, 2}), "failure-lost">>,
  <<~j.fault => j.obs.err = 0, "failed">>,
  <<~j.fault => j.obs.got = j.alone[1], "other-output">>,
  <<j.obs.closes = 1 /\ ~j.obs.late, "closes">>,
  <<j.after = j.alone[1], "spoilt">> >>)
Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = 0
Next == /\ pc = "start"
        /\ IF e.out # "ok" THEN Reject(e.out)
           ELSE LET B == {k \in DOMAIN e.jobs : Bad(e.jobs[k]) # ""}
                IN  IF B = {} THEN Accept
                    ELSE LET k == CHOOSE x \in B : \A y \in B : x <= y IN Reject(<<Bad(e.jobs[k]), e.jobs[k].kind, k>>)
Spec == Init /\ [][Next]_vars
=============================================================================
