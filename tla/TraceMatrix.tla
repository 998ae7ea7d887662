---------------------------- MODULE TraceMatrix -----------------------------
(***************************************************************************)
(* Trace specification of the views of a matrix (C12).  The first          *)
(* observation, an iteration by columns, fixes what the symbol is; every   *)
(* later operation has to agree with it and must leave the digests of all  *)
(* objects other than the one written to unchanged.                        *)
(***************************************************************************)
EXTENDS TraceCommon

Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = [k |-> 2, d |-> 0, ref |-> <<>>, dgs |-> <<>>]

(* An iteration visits every module once, in the documented order.         *)
(* A visit is the number x * 65536 + y * 256 + value (below 2^24).          *)
VX(q) == q \div 65536
VY(q) == (q \div 256) % 256
VV(q) == q % 256
IterCol(s, d) == Len(s) = d * d /\ \A c \in 1..(d * d) : s[c] - VV(s[c]) = ((c - 1) \div d) * 65536 + ((c - 1) % d) * 256
IterRow(s, d) == Len(s) = d * d /\ \A c \in 1..(d * d) : s[c] - VV(s[c]) = ((c - 1) % d) * 65536 + ((c - 1) \div d) * 256

Start ==
  /\ pc = "start"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE LET o == e.obs[1]
          IN  IF o.w # o.h \/ o.dim # o.w \/ ~IterCol(o.seq, o.w) THEN Reject("iterate-columns")
              ELSE /\ rd' = [rd EXCEPT !.d = o.w, !.ref = [c \in DOMAIN o.seq |-> VV(o.seq[c])], !.dgs = o.dgs]
                   /\ Goto("ops")

SameSeq(o, d) == o.w = d /\ o.h = d /\ IterCol(o.seq, d) /\ \A c \in 1..(d * d) : VV(o.seq[c]) = rd.ref[c]
Shown(o) ==
  LET d == rd.d ref == rd.ref
      in == o.k >= 0 /\ o.k < d
  IN  CASE o.op = "row" -> IF in THEN ~o.nil /\ Len(o.line) = d /\ \A x \in 1..d : o.line[x] = ref[(x - 1) * d + o.k + 1]
                           ELSE o.nil
        [] o.op = "col" -> IF in THEN ~o.nil /\ Len(o.line) = d /\ \A y \in 1..d : o.line[y] = ref[o.k * d + y]
                           ELSE o.nil
        [] o.op = "bitmap" -> /\ Len(o.bits) = d
                              /\ \A y \in 1..d : /\ Len(o.bits[y]) = d
                                                 /\ \A x \in 1..d : o.bits[y][x] = ref[(x - 1) * d + y] % 2
        [] o.op \in {"copy", "save"} -> SameSeq(o, d)
        [] o.op = "itercol" -> SameSeq(o, d) /\ o.dim = d
        [] o.op = "iterrow" -> IterRow(o.seq, d) /\ \A c \in 1..(d * d) : VV(o.seq[c]) = ref[VX(o.seq[c]) * d + VY(o.seq[c]) + 1]
        [] o.op = "end" -> IF o.row THEN IterRow(o.seq, d) /\ \A c \in 1..(d * d) : VV(o.seq[c]) = ref[VX(o.seq[c]) * d + VY(o.seq[c]) + 1]
                           ELSE SameSeq(o, d)
        [] o.op \in {"mutate", "openrow", "opencol", "other"} -> TRUE
Creates(o) == o.op \in {"row", "col", "bitmap", "copy", "save"}
Untouched(o) ==
  /\ Len(o.dgs) = Len(rd.dgs) + (IF Creates(o) THEN 1 ELSE 0)
  /\ \A j \in DOMAIN rd.dgs : (o.op = "mutate" /\ o.m = j - 1) \/ o.dgs[j] = rd.dgs[j]

Operate ==
  /\ pc = "ops"
  /\ IF rd.k > Len(e.obs) THEN Accept
     ELSE LET o == e.obs[rd.k]
          IN  IF ~Shown(o) THEN Reject(<<o.op, rd.k>>)
              ELSE IF ~Untouched(o) THEN Reject(<<"view-changed-by", o.op, rd.k>>)
              ELSE rd' = [rd EXCEPT !.k = rd.k + 1, !.dgs = o.dgs] /\ Goto("ops")
Next == Start \/ Operate
Spec == Init /\ [][Next]_vars
=============================================================================
