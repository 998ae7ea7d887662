---------------------------- MODULE MatrixViews -----------------------------
(***************************************************************************)
(* Design model of the matrix and its views as a heap of cells.  A matrix  *)
(* owns cells; Row, Col, Bitmap and Copy hand out views on cells of their  *)
(* own.  Writing to a view's cells must leave every other object as it is. *)
(* Alias = TRUE is the design before the repair 93ac54d (Col handed out    *)
(* the matrix's own cells); TLC refutes it.                                *)
(* Iterations call back for every module, and anything may happen in the   *)
(* callback, other iterations included: one is open from its first visits  *)
(* to its last.  Scratch = TRUE is a design in which iterations by rows    *)
(* gather each line in a buffer all of them share; TLC refutes it.         *)
(* Every history is emitted and replayed on the real matrix.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Alias, Scratch, EmitAll
D == 2                                   \* the abstract matrix is D x D
Cells == 1..(D * D)
At(x, y) == x * D + y + 1                \* stored column by column

VARIABLES heap,    \* address -> value
          objs,    \* sequence of [kind, cells (addresses), src (the line or matrix read), dirty]
          its,     \* open iterations, innermost last: [m, dir, seen]
         buf,     \* Scratch: the shared buffer
         seen,    \* what the iteration that ended last has shown
         ops
vars == <<heap, objs, its, buf, seen, ops>>

Ref == [c \in Cells |-> IF c \in {1, 4} THEN 1 ELSE 0]      \* the symbol
Init == /\ heap = [a \in Cells |-> Ref[a]]
        /\ objs = <<[kind |-> "matrix", cells |-> [c \in Cells |-> c], want |-> Ref, dirty |-> FALSE]>>
        /\ its = <<>> /\ buf = <<0, 0>> /\ seen = <<>> /\ ops = <<>>

Mats == {k \in DOMAIN objs : objs[k].kind = "matrix"}
NextAddr == Cardinality(DOMAIN heap) + 1
(* A new object holding the values vals in fresh cells.                    *)
Fresh(kind, vals) ==
  /\ heap' = [a \in DOMAIN heap \cup {NextAddr + k - 1 : k \in DOMAIN vals} |->
                IF a \in DOMAIN heap THEN heap[a] ELSE vals[a - NextAddr + 1]]
  /\ objs' = Append(objs, [kind |-> kind, cells |-> [k \in DOMAIN vals |-> NextAddr + k - 1], want |-> vals, dirty |-> FALSE])
Val(k, x, y) == heap[objs[k].cells[At(x, y)]]
Room == Len(ops) < MaxLen /\ UNCHANGED its
Calm == UNCHANGED <<buf, seen>>
RecI(op, m, k) == ops' = Append(ops, [op |-> op, m |-> m, k |-> k])
Rec(op, m, k) == RecI(op, m, k) /\ Calm
MatNo(k) == Cardinality({j \in Mats : j < k})    \* the driver numbers matrices separately

Row(k, y) == Room /\ Fresh("row", [x \in 1..D |-> Val(k, x - 1, y)]) /\ Rec("row", MatNo(k), y)
Col(k, x) == /\ Room /\ Rec("col", MatNo(k), x)
             /\ IF Alias
                THEN /\ UNCHANGED heap
                     /\ objs' = Append(objs, [kind |-> "col", cells |-> [y \in 1..D |-> objs[k].cells[At(x, y - 1)]],
                                              want |-> [y \in 1..D |-> Val(k, x, y - 1)], dirty |-> FALSE])
                ELSE Fresh("col", [y \in 1..D |-> Val(k, x, y - 1)])
Bitmap(k) == Room /\ Fresh("bitmap", [c \in Cells |-> heap[objs[k].cells[c]]]) /\ Rec("bitmap", MatNo(k), 0)
Copy(k)   == Room /\ Fresh("matrix", [c \in Cells |-> heap[objs[k].cells[c]]]) /\ Rec("copy", MatNo(k), 0)
(* Cells in the order an iteration visits them; D per line.                *)
Path(dir) == [c \in Cells |-> IF dir = "row" THEN At((c - 1) % D, (c - 1) \div D) ELSE c]
Line(k, dir, l) == [i \in 1..D |-> heap[objs[k].cells[Path(dir)[l * D + i]]]]
Full(k, dir) == [c \in Cells |-> heap[objs[k].cells[Path(dir)[c]]]]
Last(k, dir) == IF dir = "row" THEN Line(k, dir, D - 1) ELSE buf
Iter(k, o) == LET dir == IF o = "iterrow" THEN "row" ELSE "col"
              IN  Room /\ UNCHANGED <<heap, objs>> /\ RecI(o, MatNo(k), 0) /\ seen' = [dir |-> dir, vals |-> Full(k, dir)] /\ buf' = Last(k, dir)
(* the first visit, and in its callback whatever comes before the End      *)
Open(k, dir) == /\ Len(ops) < MaxLen /\ Len(its) < 2
                /\ its' = Append(its, [m |-> k, dir |-> dir, first |-> Line(k, dir, 0)[1]])
                /\ buf' = IF dir = "row" THEN Line(k, dir, 0) ELSE buf
                /\ RecI("open" \o dir, MatNo(k), 0) /\ UNCHANGED <<heap, objs, seen>>
End == /\ Len(ops) < MaxLen /\ its # <<>>
       /\ LET i == its[Len(its)]
              full == Full(i.m, i.dir)
          IN  /\ seen' = [dir |-> i.dir, vals |-> [c \in Cells |-> IF c = 1 THEN i.first
                                    ELSE IF c <= D /\ Scratch /\ i.dir = "row" THEN buf[c] ELSE full[c]]]
              /\ buf' = Last(i.m, i.dir)
       /\ its' = SubSeq(its, 1, Len(its) - 1)
       /\ RecI("end", 0, 0) /\ UNCHANGED <<heap, objs>>
Other == Room /\ UNCHANGED <<heap, objs>> /\ Rec("other", 0, 0)     \* another QR code is made and saved
Save      == Room /\ Fresh("matrix", [c \in Cells |-> heap[objs[1].cells[c]]]) /\ Rec("save", 0, 0)
Mutate(k) == /\ Room /\ objs[k].kind # "matrix"
             /\ heap' = [a \in DOMAIN heap |-> IF \E c \in DOMAIN objs[k].cells : objs[k].cells[c] = a THEN 1 - heap[a] ELSE heap[a]]
             /\ objs' = [objs EXCEPT ![k].dirty = TRUE]
             /\ Rec("mutate", k - 1, 0)
Next == \/ \E k \in Mats : \/ \E j \in 0..(D - 1) : Row(k, j) \/ Col(k, j)
                           \/ Bitmap(k) \/ Copy(k) \/ Iter(k, "iterrow") \/ Iter(k, "itercol")
        \/ Save \/ Other \/ End
        \/ \E k \in Mats, dir \in {"row", "col"} : Open(k, dir)
        \/ \E k \in DOMAIN objs : Mutate(k)
Spec == Init /\ [][Next]_vars

(* Every object that was not itself written to still shows what it showed. *)
Independent == \A k \in DOMAIN objs : ~objs[k].dirty =>
                 \A c \in DOMAIN objs[k].cells : heap[objs[k].cells[c]] = objs[k].want[c]
SymbolIntact == \A k \in Mats : \A c \in Cells : heap[objs[k].cells[c]] = Ref[c]
Faithful == seen # <<>> => seen.vals = [c \in Cells |-> Ref[Path(seen.dir)[c]]]
Emit == (EmitAll /\ Len(ops) = MaxLen) => PrintT("## " \o ToJson([ops |-> ops]))
=============================================================================
