------------------------------- MODULE GF256 -------------------------------
(***************************************************************************)
(* The field GF(2^8) of ISO/IEC 18004 (primitive polynomial                *)
(* x^8+x^4+x^3+x^2+1 = 16#11D, generator 2) and the Reed-Solomon codes over it.*)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

(* Exclusive or, by table: of two bits, two nibbles, two bytes, any two    *)
(* naturals below 2^16.                                                    *)
LOCAL Bit(a, k) == (a \div 2^k) % 2
LOCAL NibTab == TLCEval([a \in 0..15 |-> [b \in 0..15 |->
   ((Bit(a,0) + Bit(b,0)) % 2) + 2 * ((Bit(a,1) + Bit(b,1)) % 2)
   + 4 * ((Bit(a,2) + Bit(b,2)) % 2) + 8 * ((Bit(a,3) + Bit(b,3)) % 2)]])
XorTab == TLCEval([i \in 1..65536 |->
   LET a == (i - 1) \div 256 b == (i - 1) % 256
   IN  16 * NibTab[a \div 16][b \div 16] + NibTab[a % 16][b % 16]])
Xor8(a, b)  == XorTab[a * 256 + b + 1]
Xor16(a, b) == 256 * Xor8(a \div 256, b \div 256) + Xor8(a % 256, b % 256)

LOCAL Double(a) == IF a < 128 THEN 2 * a ELSE Xor16(2 * a, 285)

(* Exp[i+1] = 2^i for i in 0..509 (doubled, so that log sums need no mod). *)
GFExp == TLCEval(FoldLeftDomain(LAMBDA acc, i : Append(acc, Double(acc[i])),
                                <<1>>, [i \in 1..509 |-> i]))

(* Log[a] for a in 1..255. *)
GFLog == TLCEval([a \in 1..255 |-> CHOOSE i \in 0..254 : GFExp[i + 1] = a])

GFMul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE GFExp[GFLog[a] + GFLog[b] + 1]

(* Multiplication by 2^i. *)
GFMulExp(a, i) == IF a = 0 THEN 0 ELSE GFExp[GFLog[a] + i + 1]

(* Value of the polynomial with coefficients `block` (highest degree first)*)
(* at 2^i: the i-th syndrome of a received block.                          *)
Syndrome(block, i) == FoldLeft(LAMBDA acc, c : Xor8(GFMulExp(acc, i), c), 0, block)

IsCodeword(block, necc) == \A i \in 0..(necc - 1) : Syndrome(block, i) = 0

(* Generator polynomial prod_{i<n} (x - 2^i), monic leading term dropped.  *)
GeneratorPoly(n) ==
  LET step(g, i) ==   \* g has length i (degree i); multiply by (x + 2^i)
        [k \in 1..(Len(g) + 1) |->
           Xor8(IF k <= Len(g) THEN g[k] ELSE 0,
                IF k = 1 THEN 0 ELSE GFMulExp(g[k - 1], i))]
      \* full polynomial, leading 1 included
      full == FoldLeft(LAMBDA g, i : TLCEval(step(g, i)), <<1>>, [j \in 1..n |-> j - 1])
  IN  SubSeq(full, 2, n + 1)

(* Error-correction codewords of `data`: remainder of data*x^n by the      *)
(* generator polynomial.                                                   *)
RSRemainder(data, n) ==
  LET g == TLCEval(GeneratorPoly(n))
      step(rem, d) ==
        LET f == Xor8(d, rem[1])
            sh == [k \in 1..n |-> IF k < n THEN rem[k + 1] ELSE 0]
        IN  TLCEval([k \in 1..n |-> Xor8(sh[k], GFMul(g[k], f))])
  IN  FoldLeft(step, [k \in 1..n |-> 0], data)
=============================================================================
