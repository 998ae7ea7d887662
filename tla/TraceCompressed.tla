-------------------------- MODULE TraceCompressed ---------------------------
(***************************************************************************)
(* Trace specification of the compressed writer (C18): a pixel is black    *)
(* exactly when it lies in the block of a dark module, white otherwise.    *)
(***************************************************************************)
EXTENDS TraceCommon

Black == <<0, 0, 0, 255>>
White == <<255, 255, 255, 255>>
Side == e.d * e.block + 2 * e.pad
Mod(x) == IF x < e.pad \/ x >= e.pad + e.d * e.block THEN -1 ELSE (x - e.pad) \div e.block
Want(x, y) == IF Mod(x) >= 0 /\ Mod(y) >= 0 /\ e.m[Mod(y) * e.d + Mod(x) + 1] % 2 = 1 THEN Black ELSE White
RunStart(l, r) == IF r = 1 THEN 0 ELSE l[2 * r - 3]
RowOK(y, l) == /\ l[Len(l) - 1] = Side
               /\ \A r \in 1..(Len(l) \div 2) : LET p == e.pic.pal[l[2 * r]]
                                                IN  \A x \in RunStart(l, r)..(l[2 * r - 1] - 1) : p = Want(x, y)

Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = [k |-> 1, y |-> 0]
Start ==
  /\ pc = "start"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE LET bad == FirstBad(<< <<e.pic.w = Side /\ e.pic.h = Side, "size">>, <<e.same, "file-differs">>,
                                 <<e.opt = <<e.pad, e.block>>, "options-changed">> >>)
          IN  IF bad # "" THEN Reject(bad) ELSE UNCHANGED rd /\ Goto("rows")
Rows ==
  /\ pc = "rows"
  /\ IF rd.k > Len(e.pic.rows) THEN IF rd.y = Side THEN Accept ELSE Reject("height")
     ELSE LET g == e.pic.rows[rd.k]
              fresh(y) == y = rd.y \/ Mod(y) # Mod(y - 1)
          IN  IF \A y \in rd.y..(rd.y + g[1] - 1) : fresh(y) => RowOK(y, g[2])
              THEN rd' = [k |-> rd.k + 1, y |-> rd.y + g[1]] /\ Goto("rows")
              ELSE Reject(<<"pixels", rd.y>>)
Next == Start \/ Rows
Spec == Init /\ [][Next]_vars
=============================================================================
