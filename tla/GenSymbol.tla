----------------------------- MODULE GenSymbol ------------------------------
(***************************************************************************)
(* Enumerates every version, level and mode together with the text lengths *)
(* at which the specification changes its behaviour: the capacity, the     *)
(* first length that does not fit the version below, and the lengths at    *)
(* which a symbol has fewer than four spare bits or a partial last byte.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, QRTables

Spare(v, lv, mode, n) == 8 * DataCodewords(v, lv) - StreamBits(v, mode, n)

Row(v, lv, mode) ==
  LET cap == Capacity(v, lv, mode)
  IN  [ver |-> v, lv |-> lv, mode |-> mode, cap |-> cap, count |-> CountBits(v, mode),
       low |-> IF v = 1 THEN 0 ELSE Capacity(v - 1, lv, mode) + 1,
       spare |-> Spare(v, lv, mode, cap),
       codewords |-> TotalCodewords(v), datacw |-> DataCodewords(v, lv)]

Rows == [k \in 1..640 |-> Row(((k - 1) \div 16) + 1, (((k - 1) \div 4) % 4) + 1, <<1, 2, 4, 8>>[((k - 1) % 4) + 1])]

(* The capacity is the largest length that fits, and grows with the version.*)
ASSUME \A k \in 1..640 :
  LET r == Rows[k]
  IN  /\ Fits(r.ver, r.lv, r.mode, r.cap) /\ ~Fits(r.ver, r.lv, r.mode, r.cap + 1)
      /\ r.spare >= 0 /\ r.cap < 2^r.count
      /\ r.ver > 1 => r.low <= r.cap
ASSUME ndJsonSerialize(IOEnv.VERIF_OUT \o "/gen.ndjson", Rows)
=============================================================================
