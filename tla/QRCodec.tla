------------------------------ MODULE QRCodec -------------------------------
(***************************************************************************)
(* From module colours to text (what any standard reader does) and back.   *)
(* `m` is a flat row-major sequence of module values whose lowest bit is   *)
(* the colour.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, QRTables, QRLayout, GF256, QRKanji

(* Unmasked bits of the data modules, in stream order.                     *)
RawBits(m, d, order, mask) ==
  TLCEval([i \in 1..Len(order) |->
     LET c == order[i]
     IN  IF MaskBit(mask, (c - 1) % d, (c - 1) \div d)
         THEN 1 - (m[c] % 2) ELSE m[c] % 2])

ToCodewords(bits, n) ==
  TLCEval([k \in 1..n |-> LET b == 8 * (k - 1) IN
     128 * bits[b+1] + 64 * bits[b+2] + 32 * bits[b+3] + 16 * bits[b+4]
     + 8 * bits[b+5] + 4 * bits[b+6] + 2 * bits[b+7] + bits[b+8]])

(* De-interleaving: position in the codeword sequence of the i-th data     *)
(* codeword / j-th error-correction codeword of block b (all 1-based).     *)
DataPos(v, lv, b, i) ==
  LET s == ShortLen(v, lv) nb == NumBlocks(v, lv)
  IN  IF i <= s THEN (i - 1) * nb + b ELSE s * nb + (b - NumShort(v, lv))
EccPos(v, lv, b, j) == DataCodewords(v, lv) + (j - 1) * NumBlocks(v, lv) + b

BlockOf(v, lv, cw, b) ==
  LET nd == BlockDataLen(v, lv, b)
  IN  TLCEval([k \in 1..(nd + EccPerBlock(v, lv)) |->
         IF k <= nd THEN cw[DataPos(v, lv, b, k)] ELSE cw[EccPos(v, lv, b, k - nd)]])

BlocksOf(v, lv, cw) == TLCEval([b \in 1..NumBlocks(v, lv) |-> BlockOf(v, lv, cw, b)])

DataOf(v, lv, blocks) ==
  TLCEval(FoldLeftDomain(LAMBDA acc, b : acc \o SubSeq(blocks[b], 1, BlockDataLen(v, lv, b)),
                         <<>>, blocks))

Pow2 == TLCEval([i \in 1..31 |-> 2^(i - 1)])

(* n bits starting after position p (0-based) of the data codewords.       *)
RECURSIVE BitField(_, _, _)
BitField(data, p, n) ==
  IF n = 0 THEN 0
  ELSE LET cw    == data[p \div 8 + 1]
           avail == 8 - (p % 8)
           take  == IF n < avail THEN n ELSE avail
           part  == (cw \div Pow2[avail - take + 1]) % Pow2[take + 1]
       IN  part * Pow2[n - take + 1] + BitField(data, p + take, n - take)

AlphaTab == TLCEval(
  [i \in 1..45 |-> IF i <= 10 THEN 47 + i ELSE IF i <= 36 THEN 54 + i
                   ELSE <<32, 36, 37, 42, 43, 45, 46, 47, 58>>[i - 36]])

LOCAL Digits(val, n) == [i \in 1..n |-> 48 + ((val \div (10^(n - i))) % 10)]

(* UTF-8 encoding of a code point of the basic multilingual plane.         *)
Utf8(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
  ELSE <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>

Fail == [ok |-> FALSE, bytes |-> <<>>, pos |-> 0, modes |-> <<>>, chars |-> 0]

(* Payload of one segment: n characters of `mode` starting at bit p.       *)
LOCAL SegBytes(data, p, mode, n) ==
  CASE mode = 1 ->
         LET g == (n + 2) \div 3
             f == [i \in 1..g |->
                    LET k == IF 3 * i <= n THEN 3 ELSE n - 3 * (i - 1)
                        val == BitField(data, p + 10 * (i - 1), <<4, 7, 10>>[k])
                    IN  IF val < 10^k THEN Digits(val, k) ELSE <<-1>>]
         IN  FlattenSeq(f)
    [] mode = 2 ->
         LET g == (n + 1) \div 2
             f == [i \in 1..g |->
                    IF 2 * i <= n
                    THEN LET val == BitField(data, p + 11 * (i - 1), 11)
                         IN  IF val < 2025 THEN <<AlphaTab[val \div 45 + 1], AlphaTab[(val % 45) + 1]>> ELSE <<-1>>
                    ELSE LET val == BitField(data, p + 11 * (i - 1), 6)
                         IN  IF val < 45 THEN <<AlphaTab[val + 1]>> ELSE <<-1>>]
         IN  FlattenSeq(f)
    [] mode = 4 -> [i \in 1..n |-> BitField(data, p + 8 * (i - 1), 8)]
    [] mode = 8 ->
         FlattenSeq([i \in 1..n |->
            LET cp == KanjiTab[BitField(data, p + 13 * (i - 1), 13) + 1]
            IN  IF cp = 0 THEN <<-1>> ELSE Utf8(cp)])

(* Decode segments from bit p until the terminator (0000, or fewer than    *)
(* four bits left).  An ECI header (0111) is accepted and skipped.         *)
RECURSIVE DecodeFrom(_, _, _, _, _, _)
DecodeFrom(v, data, p, acc, modes, chars) ==
  LET total == 8 * Len(data)
  IN  IF total - p < 4 THEN [ok |-> TRUE, bytes |-> acc, pos |-> p, modes |-> modes, chars |-> chars]
      ELSE LET mode == BitField(data, p, 4)
           IN  IF mode = 0 THEN [ok |-> TRUE, bytes |-> acc, pos |-> p, modes |-> modes, chars |-> chars]
               ELSE IF mode = 7 /\ total - p >= 12 /\ BitField(data, p + 4, 8) < 128
                    THEN DecodeFrom(v, data, p + 12, acc, modes, chars)
               ELSE IF mode \notin Modes THEN Fail
               ELSE LET cb == CountBits(v, mode)
                    IN  IF p + 4 + cb > total THEN Fail
                        ELSE LET n == BitField(data, p + 4, cb)
                                 q == p + 4 + cb
                             IN  IF q + PayloadBits(mode, n) > total THEN Fail
                                 ELSE LET bs == TLCEval(SegBytes(data, q, mode, n))
                                      IN  IF \E i \in 1..Len(bs) : bs[i] = -1 THEN Fail
                                          ELSE DecodeFrom(v, data, q + PayloadBits(mode, n),
                                                 acc \o bs, Append(modes, mode), chars + n)

Decode(v, data) == DecodeFrom(v, data, 0, <<>>, <<>>, 0)
=============================================================================
