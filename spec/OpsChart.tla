------------------------------- MODULE OpsChart -------------------------------
(***************************************************************************)
(* Charts: number lines, axes, the coordinate system of the user and       *)
(* scatter plots. A value of a number line is <<h, f>>: h halves, written  *)
(* as an integer or, where f = 1, as a decimal fraction.                   *)
(***************************************************************************)
EXTENDS OpsSolid

ChartDraw == {"numbervert", "XYaxis", "XYscatterplot", "plotvecxypoint"}
ChartOps == ChartDraw \cup {"userdef2Dcooordsys2screenxy", "horizontalvert", "verticalvert"}

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
NumCodes(v) ==
  LET m == Abs(v[1])
  IN  (IF v[1] < 0 THEN <<45>> ELSE <<>>) \o Digits(m \div 2) \o (IF v[2] = 1 THEN <<46, IF m % 2 = 1 THEN 53 ELSE 48>> ELSE <<>>)
NumAt(s, t, i) == <<s[1] + (i * t[1]), IF s[2] = 1 \/ t[2] = 1 THEN 1 ELSE 0>>
\* the glyphs of 0 .. 9, minus and point
GlyphOf(G, c) == IF c = 45 THEN G[11] ELSE IF c = 46 THEN G[12] ELSE G[c - 47]
Label(im, x, y, codes, scale, sp, gap, c, h, G, alt) ==
  Text(im, StrOps["plotstring"], x, y, codes, scale, sp, gap, <<c>>, h, [i \in 1 .. Len(codes) |-> GlyphOf(G, codes[i])], alt)
\* p: places, d: displacement, s, t: first value and step, o: <<no first, no last, right justified>>
Numbers(im, p, d, scale, s, t, sp, gap, c, h, G, o, alt) ==
  FoldLeft(LAMBDA m, i :
             IF (i = 1 /\ o[1] = 1) \/ (i = Len(p) /\ o[2] = 1) THEN m
             ELSE LET codes == NumCodes(NumAt(s, t, i - 1))
                      r == IF o[3] = 1 THEN 8 * (Len(codes) - 1) ELSE 0
                  IN  Label(m, p[i][1] + d[1] - r, p[i][2] + d[2], codes, scale, sp, gap, c, h, G, alt),
           im, [i \in 1 .. Len(p) |-> i])

\* from lo until hi is reached, in steps of s
StepSeq(lo, hi, s) ==
  IF s > 0 THEN [i \in 1 .. Max2(0, (hi - lo + s - 1) \div s) |-> lo + (i - 1) * s]
  ELSE [i \in 1 .. Max2(0, (lo - hi + (-s) - 1) \div (-s)) |-> lo + (i - 1) * s]
HorPts(y, x1, x2, s) == LET X == StepSeq(x1, x2, s) IN [i \in 1 .. Len(X) |-> <<X[i], y>>]
VerPts(x, y1, y2, s) == LET Y == StepSeq(y1, y2, s) IN [i \in 1 .. Len(Y) |-> <<x, Y[i]>>]

\* a: origin, steps, limits, first values, value steps, colour, text colour, grid, its colour, font height, glyphs
XYAxis(im, O, a, alt) ==
  LET u == a[1]  v == a[3]
      H == TLCEval(HorPts(u[2], u[1], v[1], a[2][1]))
      V == TLCEval(VerPts(u[1], u[2], v[2], -a[2][2]))
      g == DrawEff([op |-> "xygridvec", a |-> <<u, v, a[2], a[9]>>], im, alt)
      A0 == IF a[8] = 1 THEN g.s ELSE im
      Vec(m, q) == PaintFig(m, O, VecFig(m, u, q, 10, 0, alt), NormC(im.b, LineColor(im, a[6])))
      A1 == TLCEval(Vec(Vec(A0, <<u[1], v[2]>>), <<v[1], u[2]>>))
      A2 == Paint(A1, UNION {VSpan(H[i][1], H[i][2], H[i][2] + 3) : i \in 1 .. Len(H)}, NormC(im.b, a[6]))
      A3 == TLCEval(Paint(A2, UNION {ISpan(im, V[i][2], V[i][1], V[i][1] - 3, alt) : i \in 1 .. Len(V)}, NormC(im.b, a[6])))
      N(m, p, d, k, o) == Numbers(m, p, d, 1, a[4][k], a[5][k], 0, 0, a[7], a[10], a[11], o, alt)
      A4 == TLCEval(N(A3, V, <<-15, -4>>, 2, <<0, 0, 1>>))
  IN  [s |-> N(A4, H, <<-4, 7>>, 1, <<0, 0, 0>>), m |-> IF a[8] = 1 THEN g.msg ELSE {},
       last |-> <<NumAt(a[4][1], a[5][1], Len(H) - 1), NumAt(a[4][2], a[5][2], Len(V) - 1)>>]

\* coordinates of the user on the screen; k = 1 within the limits, -1 beyond, 0 undecided
\* I: origin, steps, limits, first values, value steps
OnScreen(x, y, I) ==
  LET X == FAdd(F(I[1][1]), FMul(FDiv(FSub(x, I[4][1]), I[5][1]), F(I[2][1])))
      Y == FSub(F(I[1][2]), FMul(FDiv(FSub(y, I[4][2]), I[5][2]), F(I[2][2])))
      r == <<FCmp(F(I[3][1]), X), FCmp(Y, F(I[3][2]))>>
      eq == <<FEq(F(I[3][1]), X), FEq(Y, F(I[3][2]))>>
      ok(i) == IF eq[i] THEN 1 ELSE r[i]
  IN  [p |-> <<X, Y>>, k |-> IF ok(1) = 1 /\ ok(2) = 1 THEN 1 ELSE IF ok(1) = -1 \/ ok(2) = -1 THEN -1 ELSE 0]

\* least squares
LSum(D, f(_)) == FoldLeft(LAMBDA s, i : TLCEval(FAdd(s, f(D[i]))), F(0), [i \in 1 .. Len(D) |-> i])
LSlope(D) ==
  LET n == F(Len(D))  x == LSum(D, LAMBDA d : d[1])  y == LSum(D, LAMBDA d : d[2])
  IN  FDiv(FSub(FMul(n, LSum(D, LAMBDA d : FMul(d[1], d[2]))), FMul(x, y)), FSub(FMul(n, LSum(D, LAMBDA d : FMul(d[1], d[1]))), FMul(x, x)))
LMean(D, k) == FDiv(LSum(D, LAMBDA d : d[k]), F(Len(D)))
LYint(D) == FSub(LMean(D, 2), FMul(LSlope(D), LMean(D, 1)))

DotFig(im, q, d, alt) ==
  LET r == Min2(d[3], 5)
      One_(c) == IF d[3] <= 1 THEN Sure({c}) ELSE IF d[5] = 1 THEN Sure(DiscSet(im, c[1], c[2], r, alt)) ELSE Sure(CircSet(c[1], c[2], r))
      G == OneOf({One_(c) : c \in Cand(RndPt(q.p))})
  IN  IF q.k = 1 THEN G ELSE Fig({}, G.may)
\* D: <<x, y, radius, colour, filled>>
Scatter(im, O, D, I, line, c, e, alt) ==
  LET Q == TLCEval([i \in 1 .. Len(D) |-> OnScreen(D[i][1], D[i][2], I)])
      K == SelectSeq([i \in 1 .. Len(D) |-> i], LAMBDA i : Q[i].k >= 0)
      Dots == [j \in 1 .. Len(K) |-> [g |-> DotFig(im, Q[K[j]], D[K[j]], alt), c |-> {NormC(im.b, D[K[j]][4])}]]
      m == TLCEval(LSlope(D))  b == TLCEval(LYint(D))
      At_(x) == OnScreen(x, FAdd(FMul(x, m), b), I)
      \* an end above the top is where the line crosses the last value of the vertical axis
      End(x) == LET q == At_(x) IN IF q.k >= 0 THEN q ELSE [OnScreen(FDiv(FSub(I[6][2], b), m), I[6][2], I) EXCEPT !.k = 2 * @]
      u == TLCEval(End(I[4][1]))  w == TLCEval(End(I[6][1]))
      G == ILineFig(im, RndPt(u.p), RndPt(w.p), alt)
      sure == Abs(At_(I[4][1]).k) = 1 /\ Abs(At_(I[6][1]).k) = 1
      RegLine == IF ~line \/ u.k = -2 \/ w.k = -2 THEN <<>> ELSE <<[g |-> IF sure THEN G ELSE Fig({}, G.may), c |-> {LineColor(im, c)}]>>
      K_ == {Q[i].k : i \in 1 .. Len(D)} \cup (IF line THEN {At_(I[4][1]).k, At_(I[6][1]).k} ELSE {})
      msg == IF -1 \in K_ THEN {M_region} ELSE IF 0 \in K_ THEN {M_region} \cap {e.msg[i] : i \in 1 .. Len(e.msg)} ELSE {}
  IN  WithMsg(InPlace(PaintSeq(im, O, TLCEval(Dots \o RegLine))), msg)

ChartEff(e, im, O, alt) ==
  LET a == e.a IN
  CASE e.op = "numbervert" ->
         InPlace(Numbers(im, a[1], <<a[2], a[3]>>, a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], alt))
    [] e.op = "XYaxis" ->
         LET r == TLCEval(XYAxis(im, O, a, alt))
         IN  WithMsg([InPlace(r.s) EXCEPT !.ret = RSeq(<<a[1], a[2], a[3], a[4], a[5], r.last>>)], r.m)
    [] e.op = "XYscatterplot" -> Scatter(im, O, a[1], a[2], a[3] = 1, a[4], e, alt)
    [] e.op = "plotvecxypoint" -> InPlace(PaintFig(im, O, PtFig(RndPt(a[1])), NormC(im.b, a[2])))
    [] e.op = "userdef2Dcooordsys2screenxy" ->
         LET q == OnScreen(a[1], a[2], a[3])
             out == e.ret.k = "seq" /\ e.ret.v = <<F(-1), F(-1)>>
             in == e.ret.k = "seq" /\ VClose(e.ret.v, q.p, VMag(q.p))
         IN  IF q.k = 1 \/ (q.k = 0 /\ ~out) THEN Ret(im, IF in THEN e.ret ELSE RSeq(q.p))
             ELSE WithMsg(Ret(im, RSeq(<<F(-1), F(-1)>>)), {M_region})
    [] e.op = "horizontalvert" -> Ret(im, RSeq(HorPts(a[1], a[2], a[3], a[4])))
    [] e.op = "verticalvert" -> Ret(im, RSeq(VerPts(a[1], a[2], a[3], a[4])))
=============================================================================
