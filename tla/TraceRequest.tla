---------------------------- MODULE TraceRequest ----------------------------
(***************************************************************************)
(* Trace specification of histories of constructions.  An event is a list  *)
(* of observations [raw, rep, n, opts, out, w, head, dg, intact ...]; the  *)
(* symbol is observed through its size, its first format word and its      *)
(* first four data bits (enough to tell version, level, mask, mode), and   *)
(* through a digest of all modules.                                        *)
(*                                                                         *)
(* rd.k is the next observation; rd.fn is the partial function from        *)
(* <<text, settings>> to digests built up so far (C06, C10, C11, C25:      *)
(* "the symbol is a function of text and options only").                   *)
(***************************************************************************)
EXTENDS TraceCommon, QRTables, QRLayout, QRRequest

Text(o) == IF o.rep = 0 THEN o.raw
           ELSE [k \in 1..o.n |-> o.raw[((k - 1) % Len(o.raw)) + 1]]

(* What the head of a symbol says: [lv, mask, mode, ver].                  *)
Word(h) == FoldLeft(LAMBDA a, c : 2 * a + c, 0, SubSeq(h, 1, 15))
Flip(mask, p) == IF MaskBit(mask, p[1], p[2]) THEN 1 ELSE 0
Read(o) ==
  LET d == o.w
      f == IF Len(o.head) = 19 THEN FormatDecode(Word(o.head)) ELSE <<0, 0>>
      cells == << <<d-1, d-1>>, <<d-2, d-1>>, <<d-1, d-2>>, <<d-2, d-2>> >>
      bit(k) == (o.head[15 + k] + Flip(f[2], cells[k])) % 2
  IN  IF f[1] = 0 THEN [ok |-> FALSE, lv |-> 0, mode |-> 0, ver |-> 0]
      ELSE [ok |-> TRUE, lv |-> f[1], ver |-> IF d % 4 = 1 THEN (d - 17) \div 4 ELSE 0,
            mode |-> 8 * bit(1) + 4 * bit(2) + 2 * bit(3) + bit(4)]

Key(o) == <<Text(o), Settings(o.opts)>>

Sane(o) == o.out \in {"ok", "err"}
Readable(o) == o.saved /\ o.h = o.w /\ o.dim = o.w /\ Read(o).ok

Judge(o) ==
  LET x == Outcome(Text(o), o.opts)
      s == Read(o)
  IN  IF ~Sane(o) THEN o.out
      ELSE IF Prop \in {"C09", "C10"} /\ (o.out = "ok") # x.ok THEN IF x.ok THEN "refused" ELSE "accepted"
      ELSE IF Prop = "C09" /\ o.out = "err" /\ ~o.nilq THEN "symbol-with-error"
      ELSE IF x.ok /\ o.out # "ok" THEN "refused"
      ELSE IF o.out # "ok" THEN ""
      ELSE IF ~Readable(o) THEN "unreadable"
      ELSE IF Prop \in {"C07", "C10"} /\ x.ok /\ s.mode # x.mode THEN "mode"
      ELSE IF Prop = "C10" /\ s.lv # x.lv THEN "level"
      ELSE IF Prop \in {"C08", "C10"} /\ x.ok /\ s.ver # x.ver THEN "version"
      ELSE IF Prop = "C11" /\ ~o.intact THEN "input-modified"
      ELSE ""

Init == evt \in DOMAIN Trace /\ pc = "obs" /\ rd = [k |-> 1, fn |-> <<>>]

(* Is there an earlier observation with the same key and another digest?   *)
Function == Prop \in {"C06", "C10", "C11", "C25"}
Differs(o) == \E j \in DOMAIN rd.fn : rd.fn[j][1] = Key(o) /\ rd.fn[j][2] # <<o.out, o.dg>>
Known(o)   == \E j \in DOMAIN rd.fn : rd.fn[j][1] = Key(o)

Observe ==
  /\ pc = "obs"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE IF rd.k > Len(e.obs) THEN Accept
     ELSE LET o == e.obs[rd.k]
              j == Judge(o)
          IN  IF j # "" THEN Reject(<<j, rd.k>>)
              ELSE IF Function /\ Differs(o) THEN Reject(<<"not-a-function", rd.k>>)
              ELSE /\ rd' = [k |-> rd.k + 1,
                             fn |-> IF Function /\ ~Known(o) THEN Append(rd.fn, <<Key(o), <<o.out, o.dg>>>>) ELSE rd.fn]
                   /\ Goto("obs")
Next == Observe
Spec == Init /\ [][Next]_vars
=============================================================================
