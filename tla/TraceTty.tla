------------------------------ MODULE TraceTty ------------------------------
(***************************************************************************)
(* Trace specification of a session of the command on a terminal (C28):    *)
(* flags and text -> screen -> wait -> restoration -> exit status.  What   *)
(* the terminal showed is read back by the standard reader.                *)
(***************************************************************************)
EXTENDS TraceCommon, Cli, PicReader, ScreenCells

Expected(x) == Outcome(x.raw, <<>>)
Orders == TLCEval(LayoutOrders({Expected(Trace[i]).ver : i \in {j \in DOMAIN Trace : Trace[j].out = "ok" /\ Trace[j].status = 0}} \ {0}))
S == Flags(e.flags)
D == Dim(rd.v)
LookAt(x, y) == LET c == e.pal[e.rows[y + 1][x + 1]] IN Look(c[1], c[2], c[3])
(* Module 1, 0 or 2 (neither), shown by two cells of equal look.            *)
Module(mx, my) == LET a == LookAt(2 * (mx + 1), my + 1)
                      b == LookAt(2 * (mx + 1) + 1, my + 1)
                  IN  IF {a, b} \subseteq Dark THEN 1 ELSE IF {a, b} \subseteq Light THEN 0 ELSE 2

Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = [v |-> 0, m |-> <<>>]
Start ==
  /\ pc = "start"
  /\ LET x == Expected(e)
     IN  IF e.out # "ok" THEN Reject(e.out)
         ELSE IF ~e.tidy THEN Reject("files")
         ELSE IF ~e.restored THEN Reject("terminal-left")
         ELSE IF e.status # 0
              THEN (IF Sound(S) /\ S.term = 1 /\ x.ok THEN Reject("refused") ELSE Accept)
         ELSE IF Malformed(S) \/ ~x.ok THEN Reject("silent-failure")
         ELSE IF S.term # 1 THEN Accept
         ELSE IF e.early THEN Reject("did-not-wait")
         ELSE IF ~e.shown THEN Reject("nothing-shown")
         ELSE IF Len(e.rows) < Dim(x.ver) + 2 \/ Len(e.rows[1]) < 2 * (Dim(x.ver) + 2) THEN Accept
         ELSE rd' = [rd EXCEPT !.v = x.ver] /\ Goto("frame")
Frame ==
  /\ pc = "frame"
  /\ LET inside(x, y) == x < 2 * (D + 2) /\ y < D + 2
         symbol(x, y) == x >= 2 /\ y >= 1 /\ x < 2 * (D + 1) /\ y < D + 1
         bad == {p \in (0..(Len(e.rows[1]) - 1)) \X (0..(Len(e.rows) - 1)) :
                   LET x == p[1] y == p[2]
                       c == e.pal[e.rows[y + 1][x + 1]]
                   IN  IF symbol(x, y) THEN FALSE
                       ELSE IF inside(x, y) THEN Look(c[1], c[2], c[3]) \notin Light
                       ELSE ~Neutral(c[1], c[3])}
     IN  IF bad # {} THEN Reject(<<"cell", CHOOSE p \in bad : TRUE>>)
         ELSE rd' = [rd EXCEPT !.m = TLCEval([i \in 1..(D * D) |-> Module((i - 1) % D, (i - 1) \div D)])] /\ Goto("read")
Read ==
  /\ pc = "read"
  /\ LET r == ReadModules(rd.m, rd.v, Orders[rd.v])
     IN  IF ~r.ok THEN Reject(r.why)
         ELSE IF r.bytes # e.raw THEN Reject("wrong-text")
         ELSE Accept
Next == Start \/ Frame \/ Read
Spec == Init /\ [][Next]_vars
=============================================================================
