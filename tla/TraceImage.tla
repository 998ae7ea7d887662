----------------------------- MODULE TraceImage -----------------------------
(***************************************************************************)
(* Trace specification of the standard writer's pictures (C14 - C17).      *)
(* The picture is given as groups of equal rows, each a list of runs; the  *)
(* specification walks over the groups and judges every pixel.             *)
(* rd: st settings, k group, y its first row, cand logo positions left     *)
(***************************************************************************)
EXTENDS TraceCommon, StdImage

NoSt == [st |-> DefaultImg, k |-> 1, y |-> 0, cand |-> {}]
Init == evt \in DOMAIN Trace /\ pc = "start" /\ rd = NoSt

D == e.d
M == e.m
Lum(st) == e.lumd /\ st.fmt = "jpeg" /\ st.bw >= 8

Geometry(st) ==
  LET w == Width(st, D) h == Height(st, D)
  IN  FirstBad(<< <<e.attr = <<w, h, st.bd[1], st.bd[2], st.bd[3], st.bd[4], st.bw>>, "attribute">>,
                  <<e.dgs[1] = e.dgs[2], "written-again">>,
                  <<e.kept, "options-changed">>,
                  <<~e.files \/ (e.fmt0 = st.fmt /\ e.fmt1 = "png"), "format">>,
                  <<~e.files \/ (e.size0 = <<w, h>> /\ e.size1 = <<w, h>>), "encoded-size">>,
                  <<~e.files \/ (e.same0 /\ e.same1), "encoded-pixels">>,
                  <<~Lum(st) \/ \A i \in 1..(D * D) : IF M[i] % 2 = 1 THEN e.lum[i] >= 0 /\ e.lum[i] < 100 ELSE e.lum[i] > 155, "jpeg-centres">>,
                  <<"pic" \notin DOMAIN e \/ (e.pic.w = w /\ e.pic.h = h), "size">> >>)

Start ==
  /\ pc = "start"
  /\ IF e.out # "ok" THEN Reject(e.out)
     ELSE LET st == ImgSettings(e.img)
              bad == Geometry(st)
          IN  IF bad # "" THEN Reject(bad)
              ELSE /\ rd' = [NoSt EXCEPT !.st = st, !.cand = Offsets(Width(st, D), st.logo.w) \X Offsets(Height(st, D), st.logo.h)]
                   /\ Goto(IF "sparse" \in DOMAIN e THEN "sparse" ELSE IF "some" \in DOMAIN e THEN "sampled" ELSE IF "grad" \in DOMAIN e THEN "gradient" ELSE IF st.shape \in {"circle", "custom"} THEN "centres" ELSE "rows")

RunStart(l, r) == IF r = 1 THEN 0 ELSE l[2 * r - 3]
(* Rows y of the group whose description cannot differ from row y - 1.     *)
Fresh(st, c, y) ==
  \/ y = rd.y
  \/ Row(st, D, y) # Row(st, D, y - 1)
  \/ \E o \in rd.cand : LogoDrawn(st, D) /\ y >= o[2] - 1 /\ y <= o[2] + st.logo.h
  \/ st.half.on /\ (y - st.bd[1]) % (st.bw \div 3) = 0

RowOK(st, o, y, l) ==
  \A r \in 1..(Len(l) \div 2) : LET p == e.pic.pal[l[2 * r]]
                                IN  \A x \in RunStart(l, r)..(l[2 * r - 1] - 1) : PixelOK(st, D, M, o[1], o[2], x, y, p)

Rows ==
  /\ pc = "rows"
  /\ IF rd.k > Len(e.pic.rows)
     THEN IF rd.y # Height(rd.st, D) THEN Reject("height")
          ELSE rd' = [rd EXCEPT !.k = 1] /\ Goto("calls")
     ELSE LET st == rd.st
              g == e.pic.rows[rd.k]
              left == {o \in rd.cand : \A y \in rd.y..(rd.y + g[1] - 1) : Fresh(st, g, y) => RowOK(st, o, y, g[2])}
          IN  IF g[2][Len(g[2]) - 1] # Width(st, D) \/ left = {} THEN Reject(<<"pixels", rd.y>>)
              ELSE rd' = [rd EXCEPT !.k = rd.k + 1, !.y = rd.y + g[1], !.cand = left] /\ Goto("rows")

----------------------------------------------------------------------------
(* Shapes: the centre of every block, and the borders.                     *)
At(l, x) == e.pic.pal[l[2 * (CHOOSE r \in 1..(Len(l) \div 2) : RunStart(l, r) <= x /\ x < l[2 * r - 1])]]
Own(st, mx, my) == IF M[my * D + mx + 1] % 2 = 1 THEN st.fg ELSE Back(st)
Other(st, mx, my) == IF M[my * D + mx + 1] % 2 = 1 THEN Back(st) ELSE st.fg
CentresOK(st, y, l) ==
  LET my == Row(st, D, y)
  IN  my >= 0 /\ y - st.bd[1] - my * st.bw = st.bw \div 2
      => \A mx \in 0..(D - 1) : Shows(st, At(l, st.bd[4] + mx * st.bw + st.bw \div 2), Own(st, mx, my), Other(st, mx, my))
Framed(st) == \A k \in 1..4 : st.bd[k] >= st.bw
BorderOK(st, y, l) ==
  Framed(st) =>
    \A r \in 1..(Len(l) \div 2) :
      (Row(st, D, y) < 0 \/ RunStart(l, r) < st.bd[4] \/ l[2 * r - 1] > Width(st, D) - st.bd[2])
        => e.pic.pal[l[2 * r]] = Back(st)
Centres ==
  /\ pc = "centres"
  /\ IF rd.k > Len(e.pic.rows)
     THEN IF rd.y # Height(rd.st, D) THEN Reject("height") ELSE Accept
     ELSE LET st == rd.st
              g == e.pic.rows[rd.k]
              ys == rd.y..(rd.y + g[1] - 1)
          IN  IF g[2][Len(g[2]) - 1] # Width(st, D) THEN Reject("width")
              ELSE IF \E y \in ys : ~CentresOK(st, y, g[2]) THEN Reject(<<"centre", rd.y>>)
              ELSE IF \E y \in ys : ~BorderOK(st, y, g[2]) THEN Reject(<<"border", rd.y>>)
              ELSE rd' = [rd EXCEPT !.k = rd.k + 1, !.y = rd.y + g[1]] /\ Goto("centres")

(* The same from a description by centres only (large pictures), and the   *)
(* sub-blocks of a halftone picture drawn with a shape.                    *)
SubOK(st, u, w, p) ==
  LET mx == u \div 3 my == w \div 3
  IN  p = (IF u % 3 = 1 /\ w % 3 = 1 THEN Own(st, mx, my)
           ELSE IF HalfDark(st, u, w) THEN Black ELSE IF st.tr THEN Clear ELSE White)
(* Shapes that stay within their block.                                    *)
Contained(st) == st.shape # "custom" \/ st.blk \in {"square", "circle"}
Whole(v) == v - (v % 2) # DataRole
Sparse ==
  /\ pc = "sparse"
  /\ LET st == rd.st
         s == e.sparse
     IN  IF s.w # Width(st, D) \/ s.h # Height(st, D) THEN Reject("size")
         ELSE IF \E i \in 1..(D * D) : ~Shows(st, s.cen[i], Own(st, (i - 1) % D, (i - 1) \div D), Other(st, (i - 1) % D, (i - 1) \div D)) THEN Reject("centre")
         ELSE IF Framed(st) /\ \E i \in DOMAIN s.bord : s.bord[i] # Back(st) THEN Reject("border")
         ELSE IF st.half.on /\ Contained(st) /\ \E i \in 1..(9 * D * D) :
                   LET u == (i - 1) % (3 * D) w == (i - 1) \div (3 * D)
                   IN  ~Whole(M[(w \div 3) * D + (u \div 3) + 1]) /\ ~SubOK(st, u, w, s.sub[i]) THEN Reject("sub-block")
         ELSE Accept

----------------------------------------------------------------------------
(* Calls of a custom shape: [finder, x, y, w, h, neighbours, r, g, b, a]. *)
CallOK(st, o, c) ==
  LET mx == Col(st, D, c[2])
      my == Row(st, D, c[3])
      v == M[my * D + mx + 1]
  IN  /\ mx >= 0 /\ my >= 0 /\ c[2] = st.bd[4] + mx * st.bw /\ c[3] = st.bd[1] + my * st.bw
      /\ c[4] = st.bw /\ c[5] = st.bw
      /\ c[1] = (IF v - (v % 2) = FinderRole THEN 1 ELSE 0)
      /\ c[6] = Neighbours(st, D, M, o[1], o[2], mx, my)
      /\ ~(v % 2 = 1 /\ Cleared(st, D, o[1], o[2], mx, my))
      /\ IF v % 2 = 0 /\ st.tr THEN c[10] = 0 ELSE SubSeq(c, 7, 10) = (IF v % 2 = 1 THEN st.fg ELSE st.bg)
CallsOK(st, o) ==
  LET drawn == {q \in (0..(D - 1)) \X (0..(D - 1)) : ~(M[q[2] * D + q[1] + 1] % 2 = 1 /\ Cleared(st, D, o[1], o[2], q[1], q[2]))}
  IN  /\ Len(e.calls) = Cardinality(drawn)
      /\ Cardinality({<<e.calls[i][2], e.calls[i][3]>> : i \in DOMAIN e.calls}) = Len(e.calls)
      /\ \A i \in DOMAIN e.calls : CallOK(st, o, e.calls[i])
Calls ==
  /\ pc = "calls"
  /\ IF rd.st.shape = "recorded" /\ ~\E o \in rd.cand : CallsOK(rd.st, o) THEN Reject("calls") ELSE Accept

----------------------------------------------------------------------------
(* A logo keeps its colours, whatever they are.                             *)
PackedFg(st) == st.fg[1] * 65536 + st.fg[2] * 256 + st.fg[3]
Recoloured(st, o, x, y, q) ==
  q = PackedFg(st) /\ ~(InLogo(st, D, o[1], o[2], x, y) /\ ~(st.logo.kind = 1 /\ (x - o[1] + y - o[2]) % 5 = 0))
Gradient ==
  /\ pc = "gradient"
  /\ LET st == rd.st
         w == Width(st, D) h == Height(st, D)
     IN  IF e.size # <<w, h, w, h>> THEN Reject("size")
         ELSE IF st.grad = <<>> THEN IF e.grad = e.base THEN Accept ELSE Reject("recoloured")
         ELSE LET g == st.grad[1]
                  stops == Sorted(g.s)
                  E == Ends(g, w, h)
                  lo == MinOf(E)
                  span == MaxOf(E) - lo
                  bad(o, y) == {x \in 0..(w - 1) : LET i == y * w + x + 1
                                                   IN  IF Recoloured(st, o, x, y, e.base[i]) THEN ~GradientOK(g, stops, lo, span, x, y, e.grad[i])
                                                       ELSE e.grad[i] # e.base[i]}
                  places == IF LogoDrawn(st, D) THEN rd.cand ELSE {CHOOSE o \in rd.cand : TRUE}
              IN  IF \E o \in places : \A y \in 0..(h - 1) : bad(o, y) = {} THEN Accept
                  ELSE LET o == CHOOSE o \in places : TRUE IN Reject(<<"gradient", CHOOSE y \in 0..(h - 1) : bad(o, y) # {}>>)

(* The same at some places of a large picture.                             *)
Sampled ==
  /\ pc = "sampled"
  /\ LET st == rd.st
         w == Width(st, D) h == Height(st, D)
         s == e.some
     IN  IF e.size # <<w, h, w, h>> THEN Reject("size")
         ELSE IF \E i \in DOMAIN s.changed : s.changed[i] # PackedFg(st) THEN Reject("recoloured")
         ELSE LET g == st.grad[1]
                  stops == Sorted(g.s)
                  E == Ends(g, w, h)
                  lo == MinOf(E)
                  span == MaxOf(E) - lo
                  bad(o) == {i \in DOMAIN s.at : LET a == s.at[i]
                                                 IN  IF Recoloured(st, o, a[1], a[2], a[4]) THEN ~GradientOK(g, stops, lo, span, a[1], a[2], a[3])
                                                     ELSE a[3] # a[4]}
                  places == IF LogoDrawn(st, D) THEN rd.cand ELSE {CHOOSE o \in rd.cand : TRUE}
              IN  IF \E o \in places : bad(o) = {} THEN Accept
                  ELSE LET o == CHOOSE o \in places : TRUE IN Reject(<<"gradient", s.at[CHOOSE i \in bad(o) : TRUE]>>)

Next == Sparse \/ Sampled \/ Start \/ Rows \/ Centres \/ Calls \/ Gradient
Spec == Init /\ [][Next]_vars
=============================================================================
