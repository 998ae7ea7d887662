------------------------------ MODULE QRTables ------------------------------
(***************************************************************************)
(* ISO/IEC 18004 tables and formulas: symbol size, module counts, error    *)
(* correction block structure, character-count widths, data capacities.    *)
(* Levels are numbered as in the code under test: 1=L 2=M 3=Q 4=H.         *)
(* Modes: 1=numeric 2=alphanumeric 4=byte 8=kanji (the mode indicators).   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Versions == 1..40
Levels   == 1..4
Modes    == {1, 2, 4, 8}

Dim(v) == 4 * v + 17

(* Number of modules available for data and error correction.              *)
RawModules(v) ==
  LET n == v \div 7 + 2
      base == (16 * v + 128) * v + 64
  IN  IF v = 1 THEN base
      ELSE base - ((25 * n - 10) * n - 55) - (IF v >= 7 THEN 36 ELSE 0)

TotalCodewords(v) == RawModules(v) \div 8
RemainderBits(v)  == RawModules(v) % 8

EccPerBlockTab == <<
 <<7,10,15,20,26,18,20,24,30,18,20,24,26,30,22,24,28,30,28,28,28,28,30,30,26,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
 <<10,16,26,18,24,16,18,22,22,26,30,22,22,24,24,28,28,26,26,26,26,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28>>,
 <<13,22,18,26,18,24,18,22,20,24,28,26,24,20,30,24,28,28,26,30,28,30,30,30,30,28,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
 <<17,28,22,16,22,28,26,26,24,28,24,28,22,24,24,30,28,28,26,28,30,24,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30>> >>

NumBlocksTab == <<
 <<1,1,1,1,1,2,2,2,2,4,4,4,4,4,6,6,6,6,7,8,8,9,9,10,12,12,12,13,14,15,16,17,18,19,19,20,21,22,24,25>>,
 <<1,1,1,2,2,4,4,4,5,5,5,8,9,9,10,10,11,13,14,16,17,17,18,20,21,23,25,26,28,29,31,33,35,37,38,40,43,45,47,49>>,
 <<1,1,2,2,4,4,6,6,8,8,8,10,12,16,12,17,16,18,21,20,23,23,25,27,29,34,34,35,38,40,43,45,48,51,53,56,59,62,65,68>>,
 <<1,1,2,4,4,4,5,6,8,8,11,11,16,16,18,16,19,21,25,25,25,34,30,32,35,37,40,42,45,48,51,54,57,60,63,66,70,74,77,81>> >>

EccPerBlock(v, lv) == EccPerBlockTab[lv][v]
NumBlocks(v, lv)   == NumBlocksTab[lv][v]

DataCodewords(v, lv) == TotalCodewords(v) - EccPerBlock(v, lv) * NumBlocks(v, lv)

(* Block b (1-based) has ShortLen data codewords, one more for the last    *)
(* NumLong blocks.                                                         *)
ShortLen(v, lv) == TotalCodewords(v) \div NumBlocks(v, lv) - EccPerBlock(v, lv)
NumLong(v, lv)  == TotalCodewords(v) % NumBlocks(v, lv)
NumShort(v, lv) == NumBlocks(v, lv) - NumLong(v, lv)
BlockDataLen(v, lv, b) == ShortLen(v, lv) + (IF b > NumShort(v, lv) THEN 1 ELSE 0)

CountBits(v, mode) ==
  LET k == IF v <= 9 THEN 1 ELSE IF v <= 26 THEN 2 ELSE 3
  IN  CASE mode = 1 -> <<10, 12, 14>>[k]
        [] mode = 2 -> <<9, 11, 13>>[k]
        [] mode = 4 -> <<8, 16, 16>>[k]
        [] mode = 8 -> <<8, 10, 12>>[k]

(* Payload bits of n characters (bytes in byte mode).                      *)
PayloadBits(mode, n) ==
  CASE mode = 1 -> 10 * (n \div 3) + <<0, 4, 7>>[(n % 3) + 1]
    [] mode = 2 -> 11 * (n \div 2) + 6 * (n % 2)
    [] mode = 4 -> 8 * n
    [] mode = 8 -> 13 * n

StreamBits(v, mode, n) == 4 + CountBits(v, mode) + PayloadBits(mode, n)

Fits(v, lv, mode, n) == StreamBits(v, mode, n) <= 8 * DataCodewords(v, lv)

(* Standard capacity: the largest n that fits.                             *)
Capacity(v, lv, mode) ==
  LET bits == 8 * DataCodewords(v, lv) - 4 - CountBits(v, mode)
  IN  CASE mode = 1 -> 3 * (bits \div 10) + (LET r == bits % 10 IN IF r >= 7 THEN 2 ELSE IF r >= 4 THEN 1 ELSE 0)
        [] mode = 2 -> 2 * (bits \div 11) + (IF bits % 11 >= 6 THEN 1 ELSE 0)
        [] mode = 4 -> bits \div 8
        [] mode = 8 -> bits \div 13

(* Smallest version holding n characters, 0 if none.                       *)
SmallestVersion(lv, mode, n) ==
  IF Fits(40, lv, mode, n)
  THEN CHOOSE v \in Versions : Fits(v, lv, mode, n) /\ (v = 1 \/ ~Fits(v - 1, lv, mode, n))
  ELSE 0
=============================================================================
