------------------------------ MODULE TextFile ------------------------------
(***************************************************************************)
(* The text-file writer as a state machine on the caller's file: its       *)
(* content, the caller's position, whether it is open.  A save writes the  *)
(* picture where the caller's file stands and leaves the file open.        *)
(*                                                                         *)
(* HalfBlocks gives the picture as the bytes of its UTF-8 encoding.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

DarkAt(m, d, c, r) == r < d /\ m[r * d + c + 1] % 2 = 1
Glyph(m, d, c, r) ==
  LET u == DarkAt(m, d, c, 2 * r) l == DarkAt(m, d, c, 2 * r + 1)
  IN  IF u /\ l THEN <<226, 150, 136>> ELSE IF u THEN <<226, 150, 128>> ELSE IF l THEN <<226, 150, 132>> ELSE <<32>>
Line(m, d, r) == FlattenSeq([c \in 1..d |-> Glyph(m, d, c - 1, r)]) \o <<10>>
HalfBlocks(m, d) == FlattenSeq([r \in 1..((d + 1) \div 2) |-> Line(m, d, r - 1)])

(* Writing bytes b to file f = [data, pos, open, flag]: flag 0 read-write, *)
(* 1 append, 2 read-only.                                                  *)
Put(f, b) ==
  IF ~f.open \/ f.flag = 2 THEN f
  ELSE LET at == IF f.flag = 1 THEN Len(f.data) ELSE f.pos
           old == IF at <= Len(f.data) THEN SubSeq(f.data, 1, at) ELSE f.data \o [k \in 1..(at - Len(f.data)) |-> 0]
           rest == SubSeq(f.data, at + Len(b) + 1, Len(f.data))
       IN  IF b = <<>> THEN f ELSE [f EXCEPT !.data = old \o b \o rest, !.pos = at + Len(b)]
Writable(f) == f.open /\ f.flag # 2
=============================================================================
