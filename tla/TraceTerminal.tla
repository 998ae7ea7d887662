---------------------------- MODULE TraceTerminal ---------------------------
(***************************************************************************)
(* Trace specification of the terminal writer (C20): the protocol and      *)
(* every cell of the screen, of which a small terminal shows a part.       *)
(***************************************************************************)
EXTENDS TraceCommon, ScreenCells

FirstKey == IF \E k \in DOMAIN e.events : e.events[k] = "key"
            THEN CHOOSE k \in DOMAIN e.events : e.events[k] = "key" /\ \A j \in 1..(k - 1) : e.events[j] # "key"
            ELSE 0
Interesting == SelectSeq(e.calls, LAMBDA c : c \in {"init", "flush", "poll:key", "poll:other", "close"})
Polls(n) == [k \in 1..n |-> IF e.events[k] = "key" THEN "poll:key" ELSE "poll:other"]
Expected ==
  IF e.flush THEN <<"init", "flush", "close">>
  ELSE IF FirstKey > 0 THEN <<"init", "flush">> \o Polls(FirstKey) \o <<"close">>
  ELSE <<"init", "flush">> \o Polls(Len(e.events))

Inside(c) == c[1] >= 0 /\ c[1] < 2 * (e.d + 2) /\ c[2] >= 0 /\ c[2] < e.d + 2
CellOK(c) ==
  IF Inside(c)
  THEN LET mx == (c[1] \div 2) - 1 my == c[2] - 1
           dark == mx >= 0 /\ my >= 0 /\ mx < e.d /\ my < e.d /\ e.m[my * e.d + mx + 1] % 2 = 1
       IN  Look(c[3], c[4], c[5]) \in (IF dark THEN Dark ELSE Light)
  ELSE Neutral(c[3], c[5])

Init == evt \in DOMAIN Trace /\ pc = "protocol" /\ rd = <<>>
Protocol ==
  /\ pc = "protocol"
  /\ IF e.out \notin {"ok", "waits"} THEN Reject(e.out)
     ELSE LET bad == FirstBad(<< <<e.out = (IF e.flush \/ FirstKey > 0 THEN "ok" ELSE "waits"), "returned">>,
                                 <<\/ Interesting = Expected
                                   \/ e.out = "waits" /\ Interesting = Append(Expected, "close"), "protocol">>,
                                 <<e.err = e.flush, "error">>, <<~e.flush \/ e.same, "other-error">>, <<~e.late, "painted-after-flush">> >>)
          IN  IF bad # "" THEN Reject(bad) ELSE UNCHANGED rd /\ Goto("cells")
Cells ==
  /\ pc = "cells"
  /\ LET C == {c \in DOMAIN e.cells : Inside(e.cells[c])}
         bad == {c \in DOMAIN e.cells : ~CellOK(e.cells[c])}
              least(a, b) == IF a < b THEN a ELSE b
     IN  IF Cardinality(C) # least(2 * (e.d + 2), e.cols) * least(e.d + 2, e.rows) THEN Reject("cells-missing")
         ELSE IF bad # {} THEN LET c == e.cells[CHOOSE c \in bad : TRUE] IN Reject(<<"cell", c[1], c[2]>>)
         ELSE Accept
Next == Protocol \/ Cells
Spec == Init /\ [][Next]_vars
=============================================================================
