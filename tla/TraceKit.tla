------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Trace specification of pipelines of image helpers (C27).                *)
(***************************************************************************)
EXTENDS TraceCommon, ImageKit

Init == evt \in DOMAIN Trace /\ pc = "op" /\ rd = 1
O == e.ops[rd]
In == e.imgs[rd]
Out == e.imgs[rd + 1]
OK == CASE O.op = "gray"  -> IsGray(In, Out)
        [] O.op = "bin"   -> IsBin(In, O.n, Out)
        [] O.op = "scale" -> IsScaled(In, O.r, O.how, Out)
        [] O.op = "paint" -> SameFrame(In, Out)
        [] O.op = "save"  -> O.found = O.kind /\ O.whole /\ IsStored(In, O.kind, Out)
Step ==
  /\ pc = "op"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE IF rd > Len(e.ops) THEN Accept
     ELSE IF O.op = "save" /\ (O.kind = "" \/ O.bad # "")
          THEN (IF ~O.err THEN Reject(<<"stored", rd>>) ELSE IF ~O.same THEN Reject(<<"touched", rd>>) ELSE Accept)
     ELSE IF O.err THEN Reject(<<"refused", rd>>)
     ELSE IF ~O.intact THEN Reject(<<"input-changed", rd>>)
     ELSE IF ~OK THEN Reject(<<O.op, rd>>)
     ELSE rd' = rd + 1 /\ Goto("op")
Spec == Init /\ [][Step]_vars
=============================================================================
