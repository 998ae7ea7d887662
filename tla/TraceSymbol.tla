----------------------------- MODULE TraceSymbol ----------------------------
(***************************************************************************)
(* Trace specification: every recorded construction of a symbol has to be  *)
(* a behaviour of the standard reader below that ends in "ok".  The reader *)
(* takes the module values the code under test produced and goes through   *)
(* the steps of ISO/IEC 18004; `Prop` selects which guards are enforced.   *)
(***************************************************************************)
EXTENDS TraceCommon, QRTables, QRLayout, QRCodec, GF256, QRRequest, QRPenalty

(* Versions occurring in the trace, from the observed size.                *)
VerOf(x) == IF x.out = "ok" /\ (x.w - 17) % 4 = 0 /\ x.w >= 21 /\ x.w <= 177 THEN (x.w - 17) \div 4 ELSE 0
UsedVersions == TLCEval({VerOf(Trace[i]) : i \in DOMAIN Trace} \ {0})
Layout == TLCEval([v \in UsedVersions |-> JsonDeserialize(IOEnv.VERIF_DATA \o "/layout/" \o ToString(v) \o ".json")])
Kinds  == TLCEval([v \in UsedVersions |-> Layout[v].kinds])
Orders == TLCEval([v \in UsedVersions |-> Layout[v].order])

Nothing == [v |-> 0, lv |-> 0, mask |-> 0, cw |-> <<>>, rem |-> <<>>, data |-> <<>>, pos |-> 0]
Init == evt \in DOMAIN Trace /\ pc = "size" /\ rd = Nothing

Exp == Outcome(e.raw, e.opts)

(* Step 1: a complete square symbol of a legal size.                       *)
WellFormed(x) == /\ x.out = "ok" /\ x.saved /\ VerOf(x) # 0 /\ x.h = x.w
                 /\ Len(x.m) = x.w * x.w
ReadSize ==
  /\ pc = "size"
  /\ IF e.out # "ok"
     THEN \* no symbol: only whether that is right matters, and that is C09's business
          IF Prop = "C01" /\ Exp.ok THEN Reject("no-symbol") ELSE Accept
     ELSE IF ~WellFormed(e) THEN Reject("malformed")
     ELSE /\ rd' = [rd EXCEPT !.v = VerOf(e)]
          /\ Goto(CASE Prop \in {"C03"} -> "patterns"
                    [] OTHER -> "format")

(* C03: dimension, fixed patterns, roles.                                  *)
RoleOK(kind, q) ==   \* q: value reported by the matrix, type = q minus its lowest bit
  LET t == q - (q % 2)
  IN  CASE kind = KData    -> t = 4
        [] kind = KFinder  -> t = 10
        [] kind = KSep     -> t = 14
        [] kind = KTiming  -> t = 16
        [] kind = KAlign   -> t = 4 \/ t = 16
        [] kind = KFormat  -> t = 8
        [] kind = KVersion -> t = 6
        [] kind = KDark    -> t = 12
Patterns ==
  /\ pc = "patterns"
  /\ LET v == rd.v d == e.w ks == Kinds[v]
         bad == {c \in 1..(d * d) :
                   \/ ~RoleOK(ks[c], e.m[c])
                   \/ /\ ks[c] \notin {KData, KFormat, KVersion}
                      /\ e.m[c] % 2 # FixedColour(v, ks[c], (c - 1) % d, (c - 1) \div d)}
     IN  IF e.dim # d \/ (Exp.ok /\ Exp.ver # v) THEN Reject("dimension")
         ELSE IF bad # {} THEN Reject(<<"module", CHOOSE c \in bad : TRUE>>)
         ELSE Accept

(* Step 2: format information.                                             *)
ReadFormat ==
  /\ pc = "format"
  /\ LET d  == e.w
         w1 == BitsAt(e.m, d, FormatCells1(d))
         w2 == BitsAt(e.m, d, FormatCells2(d))
         f  == FormatDecode(w1)
     IN  IF f[1] = 0 THEN Reject("format-invalid")
         ELSE IF Prop = "C04" /\ (w1 # w2 \/ f[1] # Exp.lv) THEN Reject("format-untruthful")
         ELSE IF Prop = "C04" /\ rd.v >= 7 /\
                 (\/ BitsAt(e.m, d, VersionCells1(d)) # VersionWord(rd.v)
                  \/ BitsAt(e.m, d, VersionCells2(d)) # VersionWord(rd.v))
              THEN Reject("version-info")
         ELSE /\ rd' = [rd EXCEPT !.lv = f[1], !.mask = f[2]]
              /\ Goto(IF Prop = "C05" THEN "mask" ELSE "codewords")

(* Step 3: unmask, read the bit stream, split off the remainder bits.      *)
ReadCodewords ==
  /\ pc = "codewords"
  /\ LET bits == RawBits(e.m, e.w, Orders[rd.v], rd.mask)
         n    == TotalCodewords(rd.v)
     IN  /\ rd' = [rd EXCEPT !.cw = ToCodewords(bits, n), !.rem = SubSeq(bits, 8 * n + 1, Len(bits))]
         /\ Goto("blocks")

(* Step 4: de-interleave; C02 and C04 need all syndromes to vanish.        *)
ReadBlocks ==
  /\ pc = "blocks"
  /\ LET blocks == BlocksOf(rd.v, rd.lv, rd.cw)
         necc   == EccPerBlock(rd.v, rd.lv)
         dim    == IF Prop = "C04" THEN {1} ELSE DOMAIN blocks
         bad    == {b \in dim : ~IsCodeword(blocks[b], necc)}
     IN  IF Prop = "C02" /\ rd.lv # Exp.lv THEN Reject("level")
         ELSE IF Prop \in {"C02", "C04"} /\ bad # {}
              THEN Reject(<<"block", CHOOSE b \in bad : TRUE>>)
         ELSE IF Prop \in {"C02", "C04"} THEN Accept
         ELSE /\ rd' = [rd EXCEPT !.data = DataOf(rd.v, rd.lv, blocks), !.cw = <<>>]
              /\ Goto("segments")

(* Step 5: decode the segments.                                            *)
ReadSegments ==
  /\ pc = "segments"
  /\ LET r == Decode(rd.v, rd.data)
     IN  IF ~r.ok THEN Reject("undecodable")
         ELSE IF Prop = "C01" /\ r.bytes # e.raw THEN Reject("wrong-text")
         ELSE IF Prop = "C01" THEN Accept
         ELSE /\ rd' = [rd EXCEPT !.pos = r.pos]
              /\ Goto("padding")

(* Step 6 (C26): terminator, pad bits, pad codewords, remainder bits.      *)
PadOK(data, pos) ==
  LET total == 8 * Len(data)
      t  == IF total - pos < 4 THEN total - pos ELSE 4
      q  == pos + t
      k  == (q + 7) \div 8                  \* codewords used so far
  IN  /\ BitField(data, pos, t) = 0
      /\ BitField(data, q, 8 * k - q) = 0
      /\ \A j \in (k + 1)..Len(data) : data[j] = (IF (j - k) % 2 = 1 THEN 236 ELSE 17)
ReadPadding ==
  /\ pc = "padding"
  /\ IF ~PadOK(rd.data, rd.pos) THEN Reject("padding")
     ELSE IF \E j \in DOMAIN rd.rem : rd.rem[j] # 0 THEN Reject("remainder")
     ELSE Accept

(* C05: the mask in use has the lowest penalty, lowest number on ties.     *)
Mask ==
  /\ pc = "mask"
  /\ IF BestMasks(e.m, e.w, Kinds[rd.v], rd.lv, rd.mask) THEN Accept
     ELSE Reject(<<"mask", rd.mask, Scores(e.m, e.w, Kinds[rd.v], rd.lv, rd.mask)>>)
Next == ReadSize \/ Patterns \/ ReadFormat \/ ReadCodewords \/ ReadBlocks
        \/ ReadSegments \/ ReadPadding \/ Mask
Spec == Init /\ [][Next]_vars
=============================================================================
