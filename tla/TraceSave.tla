------------------------------ MODULE TraceSave -----------------------------
(***************************************************************************)
(* Trace specification of Save (C13): the log of calls the scripted        *)
(* writers received has to be a behaviour of SaveLifecycle, with the same  *)
(* symbol in every write.                                                  *)
(***************************************************************************)
EXTENDS TraceCommon

Init == evt \in DOMAIN Trace /\ pc = "idle" /\ rd = [i |-> 1, s |-> 0]
Step(l) == rd' = [rd EXCEPT !.i = rd.i + 1] /\ Goto(l)
c == e.log[rd.i]
More == rd.i <= Len(e.log)
S == e.saves[rd.s]

Idle == /\ pc = "idle"
        /\ IF e.out # "ok" THEN Reject(e.out)
           ELSE IF ~More THEN (IF \E i \in DOMAIN e.kept : e.kept[i] # e.dg THEN Reject("kept-matrix-changed")
                             ELSE IF rd.s = Len(e.saves) THEN Accept ELSE Reject("unfinished"))
           ELSE IF c.call = "save" /\ rd.s < Len(e.saves) /\ c.w = e.saves[rd.s + 1].w
                THEN rd' = [i |-> rd.i + 1, s |-> rd.s + 1] /\ Goto(IF c.w = 0 THEN "return" ELSE "write")
           ELSE Reject(<<"unexpected", c.call, rd.s>>)
WriteStep == /\ pc = "write"
             /\ IF ~More \/ c.call # "write" \/ c.w # S.w THEN Reject(<<"no-write", rd.s>>)
                ELSE IF c.dg # e.dg THEN Reject(<<"other-symbol", rd.s>>)
                ELSE Step(IF S.nest THEN "nested" ELSE "close")
NestedStep == /\ pc = "nested"
              /\ IF ~More \/ c.call # "nested" \/ ~c.good \/ c.dg # e.dg THEN Reject(<<"nested", rd.s>>)
                 ELSE Step("close")
CloseStep == /\ pc = "close"
             /\ IF ~More \/ c.call # "close" \/ c.w # S.w THEN Reject(<<"no-close", rd.s>>)
                ELSE Step("return")
ReturnStep == /\ pc = "return"
              /\ IF ~More \/ c.call # "return" THEN Reject(<<"extra-call", rd.s>>)
                 ELSE IF S.werr > e.nerrs THEN (IF c.res \in {-1, -2} THEN Step("idle") ELSE Reject(<<"panic-lost", rd.s, c.res>>))
                 ELSE IF c.res # (IF S.werr = 0 THEN 0 ELSE ((S.werr - 1) % e.nerrs) + 1) THEN Reject(<<"result", rd.s, c.res>>)
                 ELSE Step("idle")
Next == Idle \/ WriteStep \/ NestedStep \/ CloseStep \/ ReturnStep
Spec == Init /\ [][Next]_vars
=============================================================================
