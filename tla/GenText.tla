------------------------------- MODULE GenText ------------------------------
(***************************************************************************)
(* Histories of a caller's file: saves, own writes, seeks, closing, saves  *)
(* to no file.  The invariants are checked on tiny "pictures"; the         *)
(* histories are replayed with real symbols.                               *)
(***************************************************************************)
EXTENDS TextFile, TLC, Json
CONSTANT MaxLen

Tiny == << <<1, 0, 0, 1>>, <<1, 1, 1, 1, 0, 1, 1, 1, 0>> >>     \* 2 x 2 and 3 x 3
Pic(k) == HalfBlocks(Tiny[k + 1], k + 2)
Op(o, n) == [op |-> o, n |-> n]
Alphabet == {Op("save", 0), Op("save", 1), Op("save2", 1), Op("write", 3), Op("seek", 0), Op("seek", 5), Op("seek", 40), Op("close", 0), Op("nil", 0)}

VARIABLES ops, f, log
vars == <<ops, f, log>>
Init == /\ ops = <<>> /\ log = <<>>
        /\ \E flag \in 0..2, data \in {<<>>, [k \in 1..30 |-> 46]} : f = [data |-> data, pos |-> 0, open |-> TRUE, flag |-> flag]
Next == \E o \in Alphabet :
  /\ Len(ops) < MaxLen /\ ops' = Append(ops, o)
  /\ f' = CASE o.op \in {"save", "save2"} -> Put(f, Pic(o.n))
            [] o.op = "write" -> Put(f, <<35, 35, 35>>)
            [] o.op = "seek" -> IF f.open THEN [f EXCEPT !.pos = o.n] ELSE f
            [] o.op = "close" -> [f EXCEPT !.open = FALSE]
            [] OTHER -> f
  /\ log' = Append(log, <<f, f'>>)
Spec == Init /\ [][Next]_vars

(* A save changes exactly the bytes of its picture and nothing before it.  *)
Confined == \A k \in DOMAIN ops : ops[k].op \in {"save", "save2"} /\ Writable(log[k][1]) =>
  LET b == log[k][1] a == log[k][2]
      at == IF b.flag = 1 THEN Len(b.data) ELSE b.pos
      n == Len(Pic(ops[k].n))
  IN  /\ SubSeq(a.data, at + 1, at + n) = Pic(ops[k].n) /\ a.pos = at + n /\ a.open
      /\ \A j \in 1..Len(b.data) : j <= at \/ j > at + n => a.data[j] = b.data[j]
Shape == \A k \in 0..1 : Len(SelectSeq(Pic(k), LAMBDA c : c = 10)) = (k + 3) \div 2
Emit == Len(ops) = MaxLen => PrintT("## " \o ToJson([ops |-> ops, flag |-> f.flag, data |-> IF log = <<>> THEN <<>> ELSE log[1][1].data]))
=============================================================================
