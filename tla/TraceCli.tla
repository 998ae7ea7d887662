------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Trace specification of the command line tool (C23): invocation -> flags *)
(* -> text -> target -> picture -> exit status.                            *)
(***************************************************************************)
EXTENDS TraceCommon, Cli, PicReader

Expected(x) == Outcome(x.raw, <<>>)
Orders == TLCEval(LayoutOrders({Expected(Trace[i]).ver : i \in {j \in DOMAIN Trace : Trace[j].out = "ok" /\ Trace[j].status = 0}} \ {0}))

NoSt == [st |-> DefaultImg, d |-> 0, v |-> 0, m |-> <<>>, k |-> 1, y |-> 0]
Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = NoSt

S == Flags(e.flags)
Start ==
  /\ pc = "start"
  /\ LET x == Expected(e)
         done == x.ok /\ S.term # 1 /\ Writable(e.path)     \* as far as the flags allow
     IN  IF e.out # "ok" THEN Reject(e.out)
         ELSE IF e.status # 0 THEN (IF Sound(S) /\ done THEN Reject("refused") ELSE Accept)
         ELSE IF Malformed(S) \/ ~done THEN Reject("silent-failure")
         ELSE IF e.fmt = "" THEN Reject("no-picture")
         ELSE LET st == Image(S)
                  d == Dim(x.ver)
                  bad == FirstBad(<< <<e.fmt = st.fmt, "format">>, <<e.pic.w = Width(st, d) /\ e.pic.h = Height(st, d), "size">>,
                                     <<Complete(e.pic), "picture">> >>)
              IN  IF bad # "" THEN Reject(bad)
                  ELSE /\ rd' = [NoSt EXCEPT !.st = st, !.d = d, !.v = x.ver]
                       /\ Goto("read")

(* JPEG pictures come thresholded; their centres need some room.           *)
Sharp == rd.st.fmt = "png"
Paper == IF Sharp THEN Back(rd.st) ELSE White
Read ==
  /\ pc = "read"
  /\ IF ~Sharp /\ rd.st.bw < (IF rd.st.shape = "circle" THEN 7 ELSE 5) THEN Accept
     ELSE IF S.half # "" /\ ((rd.st.bw % 3) # 0 \/ (~Sharp /\ rd.st.bw < 18)
                              \/ (rd.st.shape = "circle" /\ rd.st.bw < (IF Sharp THEN 9 ELSE 30))) THEN Accept
     ELSE LET m == ModulesOf(rd.st, Centres0(e.pic, rd.st, rd.d), Black, Paper)
              r == ReadModules(m, rd.v, Orders[rd.v])
          IN  IF ~r.ok THEN Reject(r.why)
              ELSE IF r.bytes # e.raw THEN Reject("wrong-text")
              ELSE rd' = [rd EXCEPT !.m = IF rd.st.half.on THEN WithRoles(m, rd.v, Orders[rd.v]) ELSE m] /\ Goto("pixels")

Pixels ==
  /\ pc = "pixels"
  /\ IF rd.k > Len(e.pic.rows)
     THEN IF Sharp /\ rd.st.shape = "circle" /\ rd.st.half.on /\ ~SubBlocks(e.pic, rd.st, rd.d, rd.m) THEN Reject("sub-blocks") ELSE Accept
     ELSE LET g == e.pic.rows[rd.k]
              ok == IF Sharp /\ rd.st.shape = "rectangle" /\ S.half # "other"
                    THEN PlainRows(e.pic, rd.st, rd.d, rd.m, rd.k, rd.y)
                    ELSE FrameRows(e.pic, rd.st, rd.d, rd.k, rd.y, IF Sharp THEN 1 ELSE 9, Paper)
          IN  IF ~ok THEN Reject(<<"pixels", rd.y>>)
              ELSE rd' = [rd EXCEPT !.k = rd.k + 1, !.y = rd.y + g[1]] /\ Goto("pixels")
Next == Start \/ Read \/ Pixels
Spec == Init /\ [][Next]_vars
=============================================================================
