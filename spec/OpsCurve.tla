------------------------------- MODULE OpsCurve -------------------------------
(***************************************************************************)
(* Curves given by real functions. A point is given by the pair of sets of *)
(* the integers that its coordinates may become where rounding errors can  *)
(* decide, and nearly always by two singletons. A figure is given by       *)
(* the pixels that must and the pixels that may belong to it.              *)
(***************************************************************************)
EXTENDS OpsFrac

VertOps == {"spirographvert", "lissajouscurvevert", "circleinvolutevert", "epicycloidvert", "hypotrochoidvert", "flowervert",
  "squirclevert", "superellipsevert", "gearcurvevert", "cornuspiralvert", "heartcurvevert", "eggcurvevert",
  "regpolygonvert", "spiralcontrolpointsvert"}
SetOps == {"arcvert", "beziercurvevert", "bsplinevert", "iterellipserot"}
PolyOps == {"squircle"}
CurveDraw == {"squircle", "drawvec", "beziercurve", "bspline", "thickellipserot", "gradthickellipserot",
  "plotflower", "plotfilledflower", "drawarc", "piechart", "savehilbertcurve2file", "savekochsnowflake2file"}
CurveOps == VertOps \cup SetOps \cup CurveDraw

Rad(x) == FMul(F(x), FDiv(FPi, F(180)))
Cis(t) == <<FCos(t), FSin(t)>>
RectZ(r, t) == CScale(Cis(t), r)
RndPt(z) == <<FRoundSet(z[1]), FRoundSet(z[2])>>
IntPt(z) == <<FTruncSet(z[1]), FTruncSet(z[2])>>
Shift(n, S) == {n + s : s \in S}
Negs(S) == {-s : s \in S}
PowSgn(w, p, k) == FMul(FMul(FPow(FAbs(w), p), F(k)), F(FSgn(w)))

\* the numbers of points that a curve with parameter i * delta < lim may have
Steps(delta, lim) ==
  LET q == FDiv(F(lim), F(delta))  k == FFloor(q)
      up == IF FEq(F(k), q) THEN k ELSE k + 1
  IN  IF FNear(q, F(FRound(q))) THEN {FRound(q), FRound(q) + 1} ELSE {up}
Timed == [spirographvert |-> 6, lissajouscurvevert |-> 8, circleinvolutevert |-> 4, epicycloidvert |-> 5, hypotrochoidvert |-> 6]

\* point number i (from 0) of a curve
TPoint(op, a, i) ==
  LET q == C(a[1], a[2]) IN
  CASE op = "spirographvert" ->
         LET t == FMul(F(i), a[6])  e == FMul(a[4], a[5])  d == FSub(F(1), a[5])
         IN  RndPt(CAdd(CScale(CAdd(RectZ(d, t), RectZ(e, FMul(t, FDiv(d, a[5])))), F(a[3])), q))
    [] op = "lissajouscurvevert" ->
         LET t == FMul(F(i), a[8])
         IN  <<Shift(a[1], FRoundSet(FMul(a[3], FCos(FAdd(FMul(a[5], t), a[7]))))), Shift(a[2], FRoundSet(FMul(a[4], FSin(FMul(a[6], t)))))>>
    \* a (cos t + t sin t, sin t - t cos t)
    [] op = "circleinvolutevert" ->
         LET t == FMul(F(i), a[4]) IN RndPt(CAdd(CScale(CMul(Cis(t), <<F(1), FNeg(t)>>), a[3]), q))
    [] op = "epicycloidvert" ->
         LET t == FMul(F(i), a[5])
         IN  RndPt(CAdd(CSub(RectZ(FAdd(a[3], a[4]), t), RectZ(a[4], FMul(t, FAdd(FDiv(a[3], a[4]), F(1))))), q))
    \* ((a - b) cos t + c cos ((a - b) t / b), (a - b) sin t - c sin ((a - b) t / b))
    [] op = "hypotrochoidvert" ->
         LET t == FMul(F(i), a[6])
         IN  RndPt(CAdd(CAdd(RectZ(FSub(a[3], a[4]), t), CConj(RectZ(a[5], FMul(t, FDiv(FSub(a[3], a[4]), a[4]))))), q))
    [] op = "flowervert" ->
         LET t == Rad(FDiv(F(i), F(a[4])))
             f == FMul(FMul(FCos(FMul(FDiv(F(a[4]), F(2)), t)), FCos(FMul(FDiv(F(a[4]), F(2)), t))), F(a[3]))
             u == FAdd(t, Rad(a[5]))
         IN  <<FTruncSet(FSub(F(a[1]), FMul(f, FSin(u)))), FTruncSet(FSub(F(a[2]), FMul(f, FCos(u))))>>
    [] op = "squirclevert" ->
         LET h == FR(1, 2) IN
         <<Shift(a[1], FTruncSet(PowSgn(FCos(Rad(i)), h, a[3]))), Shift(a[2], FTruncSet(PowSgn(FSin(Rad(i)), h, a[3])))>>
    [] op = "superellipsevert" ->
         <<Shift(a[1], FTruncSet(PowSgn(FCos(Rad(i)), FDiv(F(2), F(a[5])), a[3]))),
           Shift(a[2], FTruncSet(PowSgn(FSin(Rad(i)), FDiv(F(2), F(a[6])), a[4])))>>
    [] op = "gearcurvevert" ->
         LET t == Rad(i)
             th == FTanh(FMul(F(a[4]), FSin(FMul(F(a[5]), t))))
         IN  IntPt(CAdd(RectZ(FAdd(F(a[3]), FMul(F(a[4]), th)), t), q))
    [] op = "heartcurvevert" ->
         LET t == Rad(i)  s == FSin(t)
             x == FMul(F(16), FMul(s, FMul(s, s)))
             y == FSub(FSub(FSub(FMul(F(13), FCos(t)), FMul(F(5), FCos(FMul(F(2), t)))), FMul(F(2), FCos(FMul(F(3), t)))), FCos(FMul(F(4), t)))
         IN  <<Shift(a[1], FTruncSet(FMul(F(a[3]), x))), Shift(a[2], Negs(FTruncSet(FMul(F(a[3]), y))))>>
    [] op = "regpolygonvert" ->
         LET t == FAdd(Rad(a[5]), Rad(FDiv(F(360 * i), F(a[4]))))
         IN  <<FRoundSet(FSub(F(a[1]), FMul(F(a[3]), FSin(t)))), FRoundSet(FSub(F(a[2]), FMul(F(a[3]), FCos(t))))>>

\* cornu spiral: sums of unit vectors of length r degrees
Cornu(a) ==
  LET c == Rad(1)
      S == FoldLeft(LAMBDA acc, i : LET t == FMul(F(i), c)
                                        z == TLCEval(CAdd(acc.z, RectZ(FMul(F(a[3]), c), FMul(t, t))))
                                    IN  [z |-> z, v |-> Append(acc.v, IntPt(z))],
                    [z |-> C(a[1], a[2]), v |-> <<>>], [i \in 1 .. 360 |-> i - 1])
  IN  S.v
\* egg curve; integer coordinates a, real b < a
RootRe(x) == IF FLt(x, F(0)) THEN F(0) ELSE FSqrt(x)
Egg(a) ==
  LET k == FSub(F(a[3]), a[4])
      Y(x) == FDiv(FMul(RootRe(FAdd(FSub(k, F(2 * x)), RootRe(FAdd(FMul(FMul(F(4), a[4]), F(x)), k)))), FSqrt(F(x))), FSqrt(F(2)))
      P(x) == LET y == FTrunc(Y(x)) IN
              IF y <= 0 THEN <<>> ELSE <<<<{a[1] + x - (a[3] \div 2)}, {a[2] - y}>>, <<{a[1] + x - (a[3] \div 2)}, {a[2] + y}>>>>
      Sure(x) == Cardinality(FTruncSet(Y(x))) = 1
  IN  [ok |-> \A x \in 0 .. a[3] - 1 : Sure(x),
       v |-> IF FLe(k, F(0)) THEN <<>> ELSE FlattenSeq([x \in 1 .. a[3] |-> P(x - 1)])]
\* control points of a spiral: right, down, left, up, the steps growing
RECURSIVE Spiral(_, _, _, _, _, _, _)
Spiral(v, x, y, step, inc, g, turns) ==
  IF turns <= 0 THEN v
  ELSE LET s2 == step + inc  s3 == s2 + inc  s4 == s3 + inc
           a == <<{x + step}, {y}>>  b == <<{x + step}, {y + s2}>>
           c == <<{x + step - s3}, {y + s2}>>  d == <<{x + step - s3}, {y + s2 - s4}>>
       IN  Spiral(v \o <<a, b, c, d>>, x + step - s3, y + s2 - s4, s4 + inc, inc * g, g, turns - 1)

\* all points of a curve with exactly n points
VertSeq(op, a, n) ==
  CASE op = "cornuspiralvert" -> Cornu(a)
    [] op = "eggcurvevert" -> Egg(a).v
    [] op = "spiralcontrolpointsvert" -> Spiral(<<<<{a[1]}, {a[2]}>>>>, a[1], a[2], a[3], a[3], a[4], a[5])
    [] OTHER -> [i \in 1 .. n |-> TPoint(op, a, i - 1)]
VertCounts(op, a) ==
  CASE op \in DOMAIN Timed -> Steps(a[Timed[op]], a[Timed[op] + 1])
    [] op = "flowervert" -> {360 * a[4]}
    [] op = "regpolygonvert" -> {a[4]}
    [] OTHER -> {360}
VertRet(op, a, r) ==
  IF op = "eggcurvevert" /\ ~Egg(a).ok THEN AnyRet
  ELSE LET N == VertCounts(op, a)
           n == IF r.k = "seq" /\ Len(r.v) \in N THEN Len(r.v) ELSE Min(N)
           V == TLCEval(VertSeq(op, a, n))
       IN  IF r.k = "seq" /\ Len(r.v) = Len(V) /\ \A i \in 1 .. Len(V) : Len(r.v[i]) = 2 /\ r.v[i][1] \in V[i][1] /\ r.v[i][2] \in V[i][2]
           THEN RSeq(r.v) ELSE RSeq([i \in 1 .. Len(V) |-> <<Min(V[i][1]), Min(V[i][2])>>])

(* ---- figures: [must, may] ------------------------------------------- *)
Fig(must, may) == [must |-> must, may |-> may]
Sure(S) == Fig(S, S)
FUnion(G, N) == Fig(UNION {G[i].must : i \in N}, UNION {G[i].may : i \in N})
Cand(p) == p[1] \X p[2]
Certain(p) == Cardinality(p[1]) = 1 /\ Cardinality(p[2]) = 1
PtFig(p) == IF Certain(p) THEN Sure(Cand(p)) ELSE Fig({}, Cand(p))
LineFig(p, q) ==
  IF Certain(p) /\ Certain(q) THEN Sure(LineSet(CHOOSE u \in Cand(p) : TRUE, CHOOSE v \in Cand(q) : TRUE))
  ELSE LET L == {LineSet(u, v) : u \in Cand(p), v \in Cand(q)} IN Fig({}, UNION L)
\* lines are clamped into the image
ILineFig(im, p, q, alt) ==
  LET L == {ILine(im, u[1], u[2], v[1], v[2], alt) : u \in Cand(p), v \in Cand(q)}
  IN  IF Cardinality(L) = 1 THEN Sure(UNION L) ELSE Fig({}, UNION L)
IPolyFig(im, V, alt) ==
  LET n == Len(V)
      G == [i \in 1 .. n |-> IF i = n THEN ILineFig(im, V[1], V[n], alt) ELSE ILineFig(im, V[i], V[i + 1], alt)]
  IN  FUnion(G, 1 .. n)
DiscFig(im, G, rad, alt) ==
  IF rad <= 1 THEN G ELSE Fig(DiscsSet(im, G.must, rad, alt), DiscsSet(im, G.may, rad, alt))
\* paint a figure; where it is uncertain the observed pixel decides
PaintFig(im, O, G, c) ==
  LET I(S) == TLCEval({p[2] * im.w + p[1] + 1 : p \in {q \in S : InB(im, q[1], q[2])}})
      M == I(G.must)  Y == I(G.may)
      obs == O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px)
  IN  [im EXCEPT !.px = TLCEval([i \in 1 .. Len(im.px) |->
         IF i \in M \/ (i \in Y /\ obs /\ O.px[i] = c) THEN c ELSE im.px[i]])]

\* the points at which an arc is drawn: the circle between two angles, counted from the top, and the lines at its ends
Angle(x, y) == LET t == FAcos(FDiv(F(-y), FHypot(F(x), F(y)))) IN IF x < 0 THEN FSub(FMul(F(2), FPi), t) ELSE t
ArcFig(x, y, r, s, e) ==
  LET sa == Rad(s)  ea == Rad(e)  tol == FR(3, 100)
      P == CircPart(r)
      Q == {<<u * p[1], v * p[2]>> : u \in {1, -1}, v \in {1, -1}, p \in P}
      A == TLCEval([p \in Q |-> Angle(p[1], p[2])])
      in(p) == <<FCmp(A[p], sa), FCmp(ea, A[p])>>
      must == {p \in Q : in(p) = <<1, 1>>}
      may == {p \in Q : in(p)[1] >= 0 /\ in(p)[2] >= 0}
      ray(p) == Max2(FCmp(tol, FAbs(FSub(A[p], sa))), FCmp(tol, FAbs(FSub(A[p], ea))))
      At0(p) == <<x + p[1], y + p[2]>>
  IN  Fig({At0(p) : p \in must} \cup UNION {LineSet(<<x, y>>, At0(p)) : p \in {p \in must : ray(p) = 1}},
          {At0(p) : p \in may} \cup UNION {LineSet(<<x, y>>, At0(p)) : p \in {p \in may : ray(p) >= 0}})

\* an ellipse turned by an angle about its centre, one pixel for each of its points
EllRotFig(x, y, b, a, deg) ==
  LET s == FSin(Rad(deg))  c == FCos(Rad(deg))
      Q == Mirror4(0, 0, EllPart(b, a))
      G == [p \in Q |-> PtFig(RndPt(<<FAdd(FSub(FMul(F(p[1]), c), FMul(F(p[2]), s)), F(x)), FAdd(FAdd(FMul(F(p[1]), s), FMul(F(p[2]), c)), F(y))>>))]
  IN  FUnion(G, Q)

\* Bezier curve of n + 1 control points, 4 (n + 1) straight pieces from the first to the last point
Binom(n, k) == LET f[i \in 0 .. k] == IF i = 0 THEN 1 ELSE (f[i - 1] * (n - i + 1)) \div i IN f[k]
Combine(v, w) ==    \* sum of w[i] * v[i]
  FoldLeft(LAMBDA z, i : TLCEval(CAdd(z, CScale(C(v[i][1], v[i][2]), w[i]))), C0, [i \in 1 .. Len(v) |-> i])
IPow(x, k) == IF k = 0 THEN F(1) ELSE FPow(x, F(k))
Bezier(v) ==
  LET n == Len(v)
      P(k) == LET u == FDiv(F(k), F(4 * n))
              IN  RndPt(Combine(v, [i \in 1 .. n |-> FMul(F(Binom(n - 1, i - 1)), FMul(IPow(u, i - 1), IPow(FSub(F(1), u), n - i)))]))
  IN  [k \in 1 .. 4 * n + 1 |-> P(k - 1)]
\* uniform cubic B-spline, from its third piece on; pieces beyond the last point repeat it or start again
BSpline(v, closed, back) ==
  LET n == Len(v)
      K == 4 * n
      at(i) == v[(IF back THEN i % n ELSE Min2(i, n - 1)) + 1]
      P(j) == LET i == j \div K  u == FDiv(F(j % K), F(K))
                  u2 == FMul(u, u)  u3 == FMul(u2, u)
                  w == <<FAdd(FSub(FAdd(FNeg(FDiv(u3, F(6))), FDiv(u2, F(2))), FDiv(u, F(2))), FR(1, 6)),
                         FAdd(FSub(FDiv(u3, F(2)), u2), FR(2, 3)),
                         FAdd(FDiv(FAdd(FAdd(FNeg(u3), u2), u), F(2)), FR(1, 6)),
                         FDiv(u3, F(6))>>
              IN  RndPt(Combine([m \in 1 .. 4 |-> at(i + m - 1)], w))
      N == K * (n + (IF closed THEN 2 ELSE 0))
  \* the pieces start at point 2 K, joined to the point before
  IN  [j \in 1 .. Max2(N - 2 * K + 1, 0) |-> P(2 * K + j - 2)]
CurveFig(V) ==
  IF Len(V) < 2 THEN Sure({}) ELSE FUnion([i \in 1 .. Len(V) - 1 |-> LineFig(V[i + 1], V[i])], 1 .. Len(V) - 1)

\* a vector: its line and the two lines of its head
HeadPts(u, v, hs) ==
  LET dx == v[1] - u[1]  dy == v[2] - u[2]
      hm == IF hs = 0 THEN FDiv(FHypot(F(dx), F(dy)), F(5)) ELSE F(hs)
      ang == IF dx = 0 /\ dy = 0 THEN FMul(F(3), FDiv(FPi, F(2))) ELSE FAtan2(F(dy), F(dx))
      back == IF dx = 0 /\ dy = 0 THEN ang ELSE FAdd(ang, FPi)
      H(d) == RndPt(CAdd(C(v[1], v[2]), RectZ(hm, FAdd(back, d))))
      q == FDiv(FPi, F(8))
  IN  <<H(FNeg(q)), H(q)>>
One(p) == <<{p[1]}, {p[2]}>>
VecFig(im, u, v, hs, pen, alt) ==
  LET H == HeadPts(u, v, hs)
      \* a pen width draws round pens along the lines
      L(p, q) == IF pen = 0 THEN ILineFig(im, p, q, alt)
                 ELSE LET G == LineFig(p, q) IN Fig(DiscsSet(im, G.must, pen, alt), DiscsSet(im, G.may, pen, alt))
  IN  FUnion(<<L(One(u), One(v)), L(One(v), H[1]), L(One(v), H[2])>>, 1 .. 3)

\* colours of a gradient: the nearest palette entry on palette bitmaps
LumSet(l1, l2, i, n) == FTruncSet(FAdd(FMul(FSub(F(1), FDiv(F(i), F(n))), F(l1)), FMul(FDiv(F(i), F(n)), F(l2))))
GradSet(im, lums, f) ==
  LET S == UNION {MixSet(F(l), f) : l \in lums} IN IF im.b = 24 THEN S ELSE {Nearest(im.pal, c) : c \in S}
\* figures painted one over the other; the colour of each, l.c, is one of several where
\* rounding errors can decide, and is found where the figure remains visible
PaintSeq(im, O, L) ==
  LET n == Len(L)
      obs == O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px)
      PixIdx(S) == {q[2] * im.w + q[1] + 1 : q \in {q \in S : InB(im, q[1], q[2])}}
      M == TLCEval([i \in 1 .. n |-> PixIdx(L[i].g.must)])
      Y == TLCEval([i \in 1 .. n |-> PixIdx(L[i].g.may)])
      V(i) == M[i] \ UNION {Y[k] : k \in i + 1 .. n}
      K(i) == IF Cardinality(L[i].c) = 1 \/ ~obs THEN L[i].c
              ELSE LET S == L[i].c \cap {O.px[p] : p \in V(i)} IN IF S = {} THEN L[i].c ELSE {Min(S)}
      C_ == TLCEval([i \in 1 .. n |-> K(i)])
      Vals(p) == FoldLeft(LAMBDA S, i : IF p \in Y[i] THEN (IF p \in M[i] THEN {} ELSE S) \cup C_[i] ELSE S, {im.px[p]}, [i \in 1 .. n |-> i])
  IN  [im EXCEPT !.px = TLCEval([p \in 1 .. Len(im.px) |->
         LET S == Vals(p) IN IF obs /\ O.px[p] \in S THEN O.px[p] ELSE Min(S)])]

FlowerPaint(im, O, a, r) ==
  LET v == <<a[1], a[2], r, a[4], a[5]>>
      n == 360 * a[4]
      base == a[6][1]  dl == a[6][2] - a[6][1]
      FlowerCol(p) ==
        LET l == FMul(F(dl), FDiv(FHypot(F(p[1] - a[1]), F(p[2] - a[2])), F(r)))
            L == {Min2(Abs(x), 255) : x \in FTruncSet(FAdd(F(base), l))}
            S == UNION {MixSet(F(x), a[7]) : x \in L}
        IN  IF im.b = 24 THEN S ELSE {NColors(im.b) - 1 - (c % NColors(im.b)) : c \in S}
      P == TLCEval([i \in 1 .. n |-> TPoint("flowervert", v, i - 1)])
      \* the colour of a pixel depends on the pixel only
      must == UNION {IF Certain(P[i]) THEN Cand(P[i]) ELSE {} : i \in 1 .. n}
      may == UNION {Cand(P[i]) : i \in 1 .. n}
      obs == O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px)
      V == TLCEval([p \in {q \in may : InB(im, q[1], q[2])} |-> FlowerCol(p)])
  IN  [must |-> must, V |-> V]
\* flowers drawn one after the other; later ones win
Flowers(im, O, a, R) ==
  LET L == TLCEval([i \in 1 .. Len(R) |-> FlowerPaint(im, O, a, R[i])])
      obs == O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px)
      \* possible values of a pixel
      Vals(x, y) ==
        FoldLeft(LAMBDA S, l : IF <<x, y>> \in DOMAIN l.V THEN (IF <<x, y>> \in l.must THEN {} ELSE S) \cup l.V[<<x, y>>] ELSE S,
                 {At(im, x, y)}, L)
  IN  Mk(im, LAMBDA x, y : LET S == Vals(x, y) IN IF obs /\ At(O, x, y) \in S THEN At(O, x, y) ELSE Min(S))

\* Hilbert curve of an order: the points in a cell at u with sides v
RECURSIVE Hilbert(_, _, _)
Hilbert(u, v, n) ==
  IF n <= 0 THEN <<RndPt(CAdd(u, <<FDiv(FAdd(v[1], v[3]), F(2)), FDiv(FAdd(v[2], v[4]), F(2))>>))>>
  ELSE LET h == [i \in 1 .. 4 |-> FDiv(v[i], F(2))]
           w == <<h[3], h[4], h[1], h[2]>>
           neg == [i \in 1 .. 4 |-> FNeg(w[i])]
       IN  Hilbert(u, w, n - 1) \o Hilbert(CAdd(u, <<h[1], h[2]>>), h, n - 1)
           \o Hilbert(CAdd(u, <<FAdd(h[1], h[3]), FAdd(h[2], h[4])>>), h, n - 1)
           \o Hilbert(CAdd(u, <<FAdd(h[1], v[3]), FAdd(h[2], v[4])>>), neg, n - 1)
ILinesFig(im, V, alt) == FUnion([i \in 1 .. Len(V) - 1 |-> ILineFig(im, V[i], V[i + 1], alt)], 1 .. Len(V) - 1)
ThickFig(im, V, rad, alt) ==
  FUnion([i \in 1 .. Len(V) - 1 |-> LET G == LineFig(V[i], V[i + 1]) IN Fig(DiscsSet(im, G.must, rad, alt), DiscsSet(im, G.may, rad, alt))], 1 .. Len(V) - 1)

\* a filled arc: rows between their outline pixels, unless a part lies outside
FillFig(im, G, alt) ==
  LET F1_(S) == UNION {FillRow(im, y, XsOf(S, y), alt) : y \in RowsOf(S)}
      in(S) == S # {} /\ \A p \in S : InB(im, p[1], p[2])
  IN  IF G.must = G.may THEN IF in(G.may) THEN Sure(F1_(G.may)) ELSE Sure({})
      ELSE Fig({}, F1_(G.may))
DrawArc(im, O, x, y, r, s, e, c, filled, fc, alt) ==
  LET G == TLCEval(ArcFig(x, y, r, s, e))
      A == PaintFig(im, O, G, NormC(im.b, c))
  IN  IF filled THEN PaintFig(A, O, FillFig(im, G, alt), NormC(im.b, fc)) ELSE A
ArcOut(im, G) == \E p \in G.may : ~InB(im, p[1], p[2])

\* slices of a pie chart of <<value, colour>>: start and end angle, colour, value, percentage
Slices(d) ==
  LET tot == FoldLeft(LAMBDA s, x : TLCEval(FAdd(s, x[1])), F(0), d)
      sum(i) == FoldLeft(LAMBDA s, x : TLCEval(FAdd(s, FDiv(FMul(F(360), x[1]), tot))), F(0), SubSeq(d, 1, i))
  IN  TLCEval([i \in 1 .. Len(d) |-> [s |-> sum(i - 1), e |-> sum(i), c |-> d[i][2], v |-> d[i][1], p |-> FDiv(FMul(F(100), d[i][1]), tot)]])
\* the slice of at least a half
BigOf(L) ==
  LET B == {i \in 1 .. Len(L) : FLe(F(50), L[i].p)}
      m == Max(B)
  IN  IF B = {} THEN 0 ELSE Min({i \in B : FEq(L[i].v, L[m].v) /\ L[i].c = L[m].c})
SameSlices(L, v) ==
  /\ Len(v) = Len(L)
  /\ \A i \in 1 .. Len(L) : FNear(v[i][1], L[i].s) /\ FNear(v[i][2], L[i].e) /\ v[i][3] = L[i].c /\ FEq(v[i][4], L[i].v) /\ FNear(v[i][5], L[i].p)
Pie(im, O, a, alt) ==
  LET L == Slices(a[4])
      g == BigOf(L)
      B == IF g = 0 THEN im ELSE Paint(im, DiscSet(im, a[1], a[2], a[3], alt), NormC(im.b, L[g].c))
  IN  FoldLeft(LAMBDA m, i : IF i = g THEN m ELSE DrawArc(m, O, a[1], a[2], a[3], L[i].s, L[i].e, L[i].c, TRUE, L[i].c, alt),
               B, [i \in 1 .. Len(L) |-> i])

\* Koch curve from u to v (without v at the inner levels) and the snowflake over a regular triangle
RECURSIVE Koch(_, _, _)
Koch(u, v, n) ==
  IF n = 0 THEN <<u>>
  ELSE LET d == CSub(v, u)
           e == CScale(d, FR(1, 3))
           h == FDiv(FSqrt(F(3)), F(6))
           p == TLCEval(CAdd(u, e))
           q == TLCEval(CAdd(CScale(CAdd(u, v), FR(1, 2)), CMul(CScale(d, h), C(0, 1))))
           r == TLCEval(CSub(v, e))
       IN  Koch(u, p, n - 1) \o Koch(p, q, n - 1) \o Koch(q, r, n - 1) \o Koch(r, v, n - 1)
\* the corners of the triangle are integers; ties may be rounded either way
Snowflakes(x, y, r, deg, n) ==
  LET P == TLCEval([i \in 1 .. 3 |-> TPoint("regpolygonvert", <<x, y, r, 3, deg>>, i - 1)])
      K(u, v) == Append(Koch(C(u[1], u[2]), C(v[1], v[2]), n), C(v[1], v[2]))
      V(A, B, D) == LET v == K(A, B) \o K(B, D) \o K(D, A) IN [i \in 1 .. Len(v) |-> RndPt(v[i])]
  IN  {V(A, B, D) : A \in Cand(P[1]), B \in Cand(P[2]), D \in Cand(P[3])}
OneOf(GS) == Fig({p \in UNION {g.must : g \in GS} : \A g \in GS : p \in g.must}, UNION {g.may : g \in GS})

CurveEff(e, im, O, D, alt) ==
  LET a == e.a
      P(G, c) == InPlace(PaintFig(im, O, G, NormC(im.b, c)))
  IN
  CASE e.op \in VertOps -> Ret(im, VertRet(e.op, a, e.ret))
    \* returned as the sorted sequence of the points
    [] e.op \in SetOps ->
         LET G == CASE e.op = "arcvert" -> ArcFig(a[1], a[2], a[3], a[4], a[5])
                    [] e.op = "beziercurvevert" -> CurveFig(TLCEval(Bezier(a[1])))
                    [] e.op = "bsplinevert" -> CurveFig(TLCEval(BSpline(a[1], a[2] = 1, a[3] = 1)))
                    [] e.op = "iterellipserot" -> EllRotFig(a[1], a[2], a[3], a[4], a[5])
             R == IF e.ret.k = "seq" THEN {<<e.ret.v[i][1], e.ret.v[i][2]>> : i \in 1 .. Len(e.ret.v)} ELSE {<<0, 0, 0>>}
         IN  Ret(im, IF G.must \subseteq R /\ R \subseteq G.may THEN RSeq(e.ret.v) ELSE RSeq(<<G.must \ R, R \ G.may>>))
    [] e.op = "squircle" -> P(IPolyFig(im, TLCEval(VertSeq("squirclevert", a, 360)), alt), LineColor(im, a[4]))
    [] e.op = "drawvec" -> P(VecFig(im, a[1], a[2], a[3], a[5], alt), IF a[5] = 0 THEN LineColor(im, a[4]) ELSE a[4])
    [] e.op = "beziercurve" -> P(DiscFig(im, CurveFig(TLCEval(Bezier(a[1]))), a[2], alt), a[3])
    [] e.op = "bspline" -> P(DiscFig(im, CurveFig(TLCEval(BSpline(a[1], a[4] = 1, a[5] = 1))), a[2], alt), a[3])
    [] e.op = "thickellipserot" ->
         LET G == EllRotFig(a[1], a[2], a[3], a[4], a[5])
         IN  P(Fig(DiscsSet(im, G.must, a[6], alt), DiscsSet(im, G.may, a[6], alt)), a[7])
    \* pens from the widest to a radius of 1, coloured by lerp or another easing function
    [] e.op = "gradthickellipserot" ->
         LET G == TLCEval(EllRotFig(a[1], a[2], a[3], a[4], a[5]))
             Lay(i) == Fig(DiscsSet(im, G.must, i, alt), DiscsSet(im, G.may, i, alt))
         IN  InPlace(PaintSeq(im, O, TLCEval([k \in 1 .. a[6] |-> LET i == a[6] + 1 - k IN [g |-> Lay(i), c |-> GradSet(im, LumSet(a[7][1], a[7][2], i, a[6]), a[8])]])))
    [] e.op = "plotflower" -> InPlace(Flowers(im, O, a, <<a[3]>>))
    [] e.op = "plotfilledflower" -> InPlace(Flowers(im, O, a, [i \in 1 .. Max2(a[3] - 2, 0) |-> a[3] + 1 - i]))
    [] e.op = "drawarc" ->
         LET R == InPlace(DrawArc(im, O, a[1], a[2], a[3], a[4], a[5], a[6], a[9] = 1, a[8], alt)) IN
         WithMsg(R, IF a[9] = 1 /\ ArcOut(im, ArcFig(a[1], a[2], a[3], a[4], a[5])) THEN {M_region} ELSE {})
    [] e.op = "piechart" ->
         LET L == Slices(a[4])
             g == BigOf(L)
             ok == e.ret.k = "seq" /\ Len(e.ret.v) = 2 /\ e.ret.v[2] = g - 1 /\ SameSlices(L, e.ret.v[1])
         IN  [InPlace(Pie(im, O, a, alt)) EXCEPT !.ret = IF ok THEN RSeq(e.ret.v) ELSE RSeq(<<L, g - 1>>)]
    [] e.op = "savekochsnowflake2file" ->
         LET n == 2 * a[1] + 2 * a[7] + 2
             B == Blank(n, n, a[4])
             m == (n - 1) \div 2
             B1 == IF a[6] > 0 THEN Paint(B, UNION {ISpan(B, r, 0, n - 1, alt) : r \in 0 .. n - 1}, RectColor(B, a[6])) ELSE B
             VS == TLCEval(Snowflakes(m, m, a[1], a[3], a[2]))
         IN  [Eff0(im) EXCEPT !.d =
                IF a[7] <= 1 THEN PaintFig(B1, D, OneOf({IPolyFig(B1, V, alt) : V \in VS}), LineColor(B, a[5]))
                ELSE PaintFig(B1, D, OneOf({ThickFig(B1, Append(V, V[1]), a[7], alt) : V \in VS}), NormC(B.b, a[5]))]
    [] e.op = "savehilbertcurve2file" ->
         LET x == a[1] - 1  y == a[2] - 1
             B == Blank(a[1], a[2], a[4])
             B1 == IF a[6] > 0 THEN Paint(B, UNION {ISpan(B, r, 0, x, alt) : r \in 0 .. y}, RectColor(B, a[6])) ELSE B
             V == TLCEval(Hilbert(C0, IF a[8] = 1 THEN <<F(0), F(x), F(y), F(0)>> ELSE <<F(x), F(0), F(0), F(y)>>, a[3]))
         IN  [Eff0(im) EXCEPT !.d =
                IF a[7] <= 1 THEN PaintFig(B1, D, ILinesFig(B1, V, alt), LineColor(B, a[5]))
                ELSE PaintFig(B1, D, ThickFig(B1, V, a[7], alt), NormC(B.b, a[5]))]
=============================================================================
