----------------------------- MODULE TraceStore -----------------------------
(***************************************************************************)
(* Trace specification of output files (C22): after a save the file holds  *)
(* the bytes the same writer produces on a stream, is closed, and no other *)
(* file has changed.  rd.files: digests and lengths so far; rd.linked: the *)
(* names have been made to lead to one file, and may do so still.          *)
(***************************************************************************)
EXTENDS TraceCommon
Absent == [dg |-> "", len |-> -1]
Init == evt \in DOMAIN Trace /\ pc = "step" /\ rd = [k |-> 1, files |-> <<Absent, Absent>>, linked |-> FALSE]
Step ==
  /\ pc = "step"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE IF rd.k > Len(e.obs) THEN Accept
     ELSE LET o == e.obs[rd.k]
              link == o.op \in {"hard", "sym"}
              linked == rd.linked \/ link
              other == o.files[2 - o.f]
              want == IF o.op = "remove" THEN Absent ELSE IF link THEN other ELSE [dg |-> o.want, len |-> o.wantlen]
              bad == FirstBad(<< <<~o.err, "failed">>, <<o.open = 0, "left-open">>,
                                 <<o.files[o.f + 1].len = want.len, "length">>, <<o.files[o.f + 1] = want, "content">>,
                                 <<\/ other = rd.files[2 - o.f]
                                   \/ linked /\ other \in {want, Absent}, "other-file">> >>)
          IN  IF bad # "" THEN Reject(<<bad, rd.k>>)
              ELSE rd' = [k |-> rd.k + 1, files |-> o.files, linked |-> linked] /\ Goto("step")
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
