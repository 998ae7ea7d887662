------------------------------ MODULE TraceText -----------------------------
(***************************************************************************)
(* Trace specification of the text-file writer (C19): after every step of  *)
(* a history the file holds exactly what the state machine TextFile says.  *)
(***************************************************************************)
EXTENDS TraceCommon, TextFile

Init == /\ evt \in DOMAIN Trace /\ pc = "step"
        /\ rd = [k |-> 1, f |-> [data |-> IF Trace[evt].out = "ok" THEN Trace[evt].prior ELSE <<>>, pos |-> 0, open |-> TRUE, flag |-> Trace[evt].flag]]
Hashes(n) == [k \in 1..n |-> 35]
After(f, o) ==
  CASE o.op = "save"  -> Put(f, HalfBlocks(e.syms[o.n + 1].m, e.syms[o.n + 1].d))
    [] o.op = "write" -> Put(f, Hashes(o.n))
    [] o.op = "seek"  -> IF f.open THEN [f EXCEPT !.pos = o.n] ELSE f
    [] o.op = "close" -> [f EXCEPT !.open = FALSE]
    [] o.op = "nil"   -> f
Fails(f, o) ==
  CASE o.op = "save"  -> ~Writable(f)
    [] o.op = "write" -> ~Writable(f) /\ (o.n > 0 \/ ~f.open)
    [] o.op \in {"seek", "close"} -> ~f.open
    [] o.op = "nil"   -> TRUE
Step ==
  /\ pc = "step"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE IF rd.k > Len(e.obs) THEN Accept
     ELSE LET o == e.obs[rd.k]
              f == After(rd.f, o)
          IN  IF o.err # Fails(rd.f, o) THEN Reject(<<o.op, rd.k, IF o.err THEN "failed" ELSE "succeeded">>)
              ELSE IF o.got # f.data THEN Reject(<<o.op, rd.k, "content">>)
              ELSE rd' = [k |-> rd.k + 1, f |-> f] /\ Goto("step")
Next == Step
Spec == Init /\ [][Next]_vars
=============================================================================
