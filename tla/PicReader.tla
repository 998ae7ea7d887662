----------------------------- MODULE PicReader ------------------------------
(***************************************************************************)
(* Reading a picture: sampling the modules at the block centres, reading   *)
(* the symbol they form, and judging every pixel of the picture.           *)
(* A picture is [w, h, pal, rows], rows being groups of equal rows         *)
(* <<count, <<end, colour, end, colour ...>>>>.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt, StdImage, QRRequest, QRTables, QRLayout, QRCodec, GF256

RunFrom(l, r) == IF r = 1 THEN 0 ELSE l[2 * r - 3]
ColourAt(pic, l, x) == pic.pal[l[2 * (CHOOSE r \in 1..(Len(l) \div 2) : RunFrom(l, r) <= x /\ x < l[2 * r - 1])]]
(* Index of the last row of each group, plus one.                          *)
Ends0(pic) == TLCEval(FoldLeft(LAMBDA acc, g : Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + g[1]), <<>>, pic.rows))
GroupOf(ends, y) == CHOOSE k \in DOMAIN ends : y < ends[k] /\ (k = 1 \/ y >= ends[k - 1])
Complete(pic) == /\ \A k \in DOMAIN pic.rows : LET l == pic.rows[k][2] IN l[Len(l) - 1] = pic.w
                 /\ Len(pic.rows) > 0 /\ LET s == Ends0(pic) IN s[Len(s)] = pic.h

(* Colours at the centres of the blocks, row by row.                       *)
Centres0(pic, st, d) ==
  LET ends == Ends0(pic)
      h == st.bw \div 2
  IN  TLCEval([i \in 1..(d * d) |->
        LET my == (i - 1) \div d
            mx == (i - 1) % d
        IN  ColourAt(pic, pic.rows[GroupOf(ends, st.bd[1] + my * st.bw + h)][2], st.bd[4] + mx * st.bw + h)])

(* Modules 1 (foreground), 0 (background), or 2 (neither).                 *)
ModulesOf(st, cs, fg, bg) ==
  TLCEval([i \in DOMAIN cs |-> IF cs[i] = fg THEN 1 ELSE IF cs[i] = bg THEN 0
                               ELSE IF ~Faint(st) THEN 2
                               ELSE IF Dist(cs[i], fg) < Dist(cs[i], bg) THEN 1 ELSE 0])

(* The modules a halftone picture changes, marked as such: those of the    *)
(* data area and, as the library reports them as such, those of alignment  *)
(* patterns off the timing lines.                                          *)
WithRoles(m, v, order) ==
  LET d == Dim(v)
      kinds == KindTab(v)
      D == TLCEval(ToSet(order) \cup {i \in 1..(d * d) : kinds[i] = KAlign /\ (i - 1) % d # 6 /\ (i - 1) \div d # 6})
  IN  TLCEval([i \in DOMAIN m |-> IF i \in D THEN m[i] + DataRole ELSE m[i]])

(* The standard reader on a complete symbol of version v.                  *)
Unreadable == [ok |-> FALSE, lv |-> 0, bytes |-> <<>>, modes |-> <<>>, why |-> "unreadable"]
ReadModules(m, v, order) ==
  LET d == Dim(v)
      f == FormatDecode(BitsAt(m, d, FormatCells1(d)))
  IN  IF \E i \in DOMAIN m : m[i] = 2 THEN [Unreadable EXCEPT !.why = "centres"]
      ELSE IF f[1] = 0 THEN [Unreadable EXCEPT !.why = "format"]
      ELSE LET bits   == RawBits(m, d, order, f[2])
               cw     == ToCodewords(bits, TotalCodewords(v))
               blocks == BlocksOf(v, f[1], cw)
           IN  IF \E b \in DOMAIN blocks : ~IsCodeword(blocks[b], EccPerBlock(v, f[1])) THEN [Unreadable EXCEPT !.why = "damaged"]
               ELSE LET r == Decode(v, DataOf(v, f[1], blocks))
                    IN  [ok |-> r.ok, lv |-> f[1], bytes |-> r.bytes, modes |-> r.modes, why |-> IF r.ok THEN "" ELSE "undecodable"]

(* Every pixel of a picture of plain rectangles, row groups lo..hi only.   *)
PlainRows(pic, st, d, m, k, y0) ==
  LET g == pic.rows[k]
      l == g[2]
      fresh(y) == \/ y = y0 \/ Row(st, d, y) # Row(st, d, y - 1)
                  \/ (IF st.half.on THEN (y - st.bd[1]) % (st.bw \div 3) = 0 ELSE FALSE)
      ok(y) == \A r \in 1..(Len(l) \div 2) :
                 LET p == pic.pal[l[2 * r]]
                 IN  \A x \in RunFrom(l, r)..(l[2 * r - 1] - 1) : PixelOK(st, d, m, 0, 0, x, y, p)
  IN  \A y \in y0..(y0 + g[1] - 1) : fresh(y) => ok(y)

(* Halftone pictures drawn with a shape: the centres of the sub-blocks.    *)
SubBlocks(pic, st, d, m) ==
  LET ends == Ends0(pic)
      s == st.bw \div 3
      wide(i) == m[i] - (m[i] % 2) # DataRole
  IN  \A w \in 0..(3 * d - 1) :
        LET l == pic.rows[GroupOf(ends, st.bd[1] + w * s + (s \div 2))][2]
        IN  \A u \in 0..(3 * d - 1) :
              \/ wide((w \div 3) * d + (u \div 3) + 1)
              \/ (u % 3 = 1 /\ w % 3 = 1)
              \/ ColourAt(pic, l, st.bd[4] + u * s + (s \div 2)) = (IF HalfDark(st, u, w) THEN Black ELSE IF st.tr THEN Clear ELSE White)

(* Borders, apart from a margin next to the symbol.                        *)
FrameRows(pic, st, d, k, y0, margin, bg) ==
  LET g == pic.rows[k]
      l == g[2]
      top(y) == y < st.bd[1] - margin \/ y >= st.bd[1] + d * st.bw + margin
      side(r) == l[2 * r - 1] <= st.bd[4] - margin \/ RunFrom(l, r) >= st.bd[4] + d * st.bw + margin
  IN  \A r \in 1..(Len(l) \div 2) :
        (\E y \in y0..(y0 + g[1] - 1) : top(y)) \/ side(r) => pic.pal[l[2 * r]] = bg

LayoutOrders(vs) == [v \in vs |-> JsonDeserialize(IOEnv.VERIF_DATA \o "/layout/" \o ToString(v) \o ".json").order]
=============================================================================
