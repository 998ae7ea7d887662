----------------------------- MODULE TraceWasm ------------------------------
(***************************************************************************)
(* Trace specification of sequences of calls of generateQRCode (C24).      *)
(* rd: c next call, and what is known of its picture.                      *)
(***************************************************************************)
EXTENDS TraceCommon, Wasm, PicReader

Expected(args) == IF KindOf(args) = "plain" THEN Outcome(args[1].raw, EncodeOf(OptsOf(args))) ELSE [ok |-> FALSE, mode |-> 0, lv |-> 0, ver |-> 0]
Orders == TLCEval(LayoutOrders(UNION {{Expected(Trace[i].calls[j].args).ver : j \in DOMAIN Trace[i].calls} : i \in {k \in DOMAIN Trace : Trace[k].out = "ok"}} \ {0}))

NoSt == [c |-> 1, st |-> DefaultImg, d |-> 0, m |-> <<>>, k |-> 1, y |-> 0]
Init == evt \in DOMAIN Trace /\ pc = "call" /\ rd = NoSt
C == e.calls[rd.c]

(* The form of a result.                                                   *)
Formed(c) == c.shape = "object" /\ c.bool /\ (IF c.success THEN c.fmt # "" ELSE c.error > 0)
NextCall == rd' = [NoSt EXCEPT !.c = rd.c + 1] /\ Goto("call")
Sharp == rd.st.fmt = "png"
Quant(p) == [i \in 1..4 |-> IF p[i] >= 128 THEN 255 ELSE 0]
Ink   == IF Sharp THEN rd.st.fg ELSE Quant(rd.st.fg)
Paper == IF Sharp THEN Back(rd.st) ELSE Quant(rd.st.bg)

Call ==
  /\ pc = "call"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE IF rd.c > Len(e.calls) THEN Accept
     ELSE IF ~Formed(C) THEN Reject(<<"result", rd.c>>)
     ELSE LET kind == KindOf(C.args)
              x == Expected(C.args)
          IN  IF kind = "error" THEN (IF C.success THEN Reject(<<"accepted", rd.c>>) ELSE NextCall)
              ELSE IF kind = "open" THEN NextCall
              ELSE IF x.ok /\ ~C.success /\ Width(ImageOf(OptsOf(C.args)), Dim(x.ver)) > 8000 THEN NextCall   \* may be too much
              ELSE IF C.success # x.ok THEN Reject(<<IF x.ok THEN "refused" ELSE "accepted", rd.c>>)
              ELSE IF ~x.ok THEN NextCall
              ELSE LET st0 == ImageOf(OptsOf(C.args))
                       st  == IF AnyFormat(C.args) THEN [st0 EXCEPT !.fmt = C.fmt] ELSE st0
                       d   == Dim(x.ver)
                       bad == FirstBad(<< <<C.fmt = st.fmt, "format">>, <<C.pic.w = Width(st, d) /\ C.pic.h = Height(st, d), "size">>,
                                          <<Complete(C.pic), "picture">> >>)
                   IN  IF bad # "" THEN Reject(<<bad, rd.c>>)
                       ELSE rd' = [rd EXCEPT !.st = st, !.d = d] /\ Goto("read")

(* Thresholded JPEG pictures need contrast and room.                       *)
Clearcut(st) == st.bw >= 8 /\ \A i \in 1..3 : st.fg[i] \in {0, 255} /\ st.bg[i] \in {0, 255}
Read ==
  /\ pc = "read"
  /\ IF ~Sharp /\ ~Clearcut(rd.st) THEN NextCall
     ELSE LET x == Expected(C.args)
              m == ModulesOf(rd.st, Centres0(C.pic, rd.st, rd.d), Ink, Paper)
              r == ReadModules(m, x.ver, Orders[x.ver])
          IN  IF ~r.ok THEN Reject(<<r.why, rd.c>>)
              ELSE IF r.bytes # C.args[1].raw THEN Reject(<<"wrong-text", rd.c>>)
              ELSE IF r.lv # x.lv \/ r.modes # <<x.mode>> THEN Reject(<<"settings", rd.c>>)
              ELSE rd' = [rd EXCEPT !.m = m] /\ Goto("pixels")

Pixels ==
  /\ pc = "pixels"
  /\ IF rd.k > Len(C.pic.rows) THEN NextCall
     ELSE LET g == C.pic.rows[rd.k]
              ok == IF Sharp /\ rd.st.shape = "rectangle"
                    THEN PlainRows(C.pic, rd.st, rd.d, rd.m, rd.k, rd.y)
                    ELSE FrameRows(C.pic, rd.st, rd.d, rd.k, rd.y, IF Sharp THEN 1 ELSE 17, Paper)
          IN  IF ~ok THEN Reject(<<"pixels", rd.c>>)
              ELSE rd' = [rd EXCEPT !.k = rd.k + 1, !.y = rd.y + g[1]] /\ Goto("pixels")
Next == Call \/ Read \/ Pixels
Spec == Init /\ [][Next]_vars
=============================================================================
