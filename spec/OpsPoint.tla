------------------------------ MODULE OpsPoint ------------------------------
(***************************************************************************)
(* The points of figures, neighbours, bounds, and single values of         *)
(* fractals, as the functions below the drawing operations return them.    *)
(* Integers are integers here, other numbers doubles.                      *)
(***************************************************************************)
EXTENDS OpsHue

\* a walk along the line from p to q: neighbouring points, all of the line, in order
WalkOK(s, p, q) ==
  /\ Len(s) > 0 /\ s[1] = <<p[1], p[2]>> /\ s[Len(s)] = <<q[1], q[2]>>
  /\ \A i \in 1 .. Len(s) - 1 : Abs(s[i + 1][1] - s[i][1]) <= 1 /\ Abs(s[i + 1][2] - s[i][2]) <= 1
  /\ {s[i] : i \in 1 .. Len(s)} = LineSet(p, q)
SeqSet(s) == {s[i] : i \in 1 .. Len(s)}
Once(s) == Cardinality(SeqSet(s)) = Len(s)

Around(p, mx, my, center) ==
  IF p[1] < 0 \/ p[2] < 0 THEN {}
  ELSE {q \in ((p[1] - 1) .. (p[1] + 1)) \X ((p[2] - 1) .. (p[2] + 1)) :
          IF q = <<p[1], p[2]>> THEN center ELSE q[1] >= 0 /\ q[2] >= 0 /\ q[1] < mx /\ q[2] < my}
Between(v, lo, hi) == v > lo /\ v < hi
InRec(p, b) == Between(p[1], b[1], b[3]) /\ Between(p[2], b[2], b[4])

FPair(x, y) == <<F(x), F(y)>>
NrPts(r, V) == Len(r) = Len(V) /\ \A i \in 1 .. Len(V) : Nr(r[i][1], V[i][1]) /\ Nr(r[i][2], V[i][2])
\* corner i of a regular polygon
Corner(a, i) ==
  LET t == FAdd(Rad(a[5]), Rad(FR(360 * i, a[4]))) IN <<FSub(F(a[1]), FMul(F(a[3]), FSin(t))), FSub(F(a[2]), FMul(F(a[3]), FCos(t)))>>
KochTip(u, v, h) == CAdd(CScale(CAdd(u, v), FR(1, 2)), CMul(CScale(CSub(v, u), h), C(0, 1)))

\* the value of a point: one of the possible ones, any if rounding errors decide
ValueOK(v, op, P, Q, p, q, n) == LET S == Count(op, P, Q, p, q, n) IN S = {} \/ v \in S

PointOps == {"iterline", "lineseg", "iterparallelogram", "itercirclepart", "itercirclepartlineedge", "itercirclepartvertlineedge",
  "itercircle", "circlevert", "iterellipsepart", "iterellipse", "ellipsevert", "recvert", "rectboundarycoords", "itergetneighbors",
  "getneighborlist", "sortrecpoints", "isinrectbnd", "listinrecbnd", "entirecircleisinboundary", "entireellipseisinboundary",
  "floatregpolygonvert", "hilbertvert", "koch", "kochcurvevert", "kochsnowflakevert", "fractalvalue", "fractalpoints", "newtonfuncs"}

PointOK(op, a, r, alt) ==
  CASE op \in {"iterline", "lineseg"} -> WalkOK(r, a[1], a[2])
    [] op = "iterparallelogram" ->
         LET q == <<a[3][1] + a[2][1] - a[1][1], a[3][2] + a[2][2] - a[1][2]>>
         IN  WalkOK([i \in 1 .. Len(r) |-> r[i][1]], a[1], a[3]) /\ WalkOK([i \in 1 .. Len(r) |-> r[i][2]], a[2], q)
    [] op = "itercirclepart" -> Once(r) /\ SeqSet(r) = CircPart(a[1])
    \* every row of the quadrant once, with its widest point; and every column with its
    \* (alt: the recorded finding of circular regions)
    [] op = "itercirclepartlineedge" -> Once(r) /\ LET H == HalfW(a[1]) IN SeqSet(r) = {<<H[k], k>> : k \in 0 .. a[1]}
    [] op = "itercirclepartvertlineedge" -> Once(r) /\ LET H == VHalf(a[1], alt) IN SeqSet(r) = {<<k, H[k]>> : k \in 0 .. a[1]}
    [] op \in {"itercircle", "circlevert"} -> SeqSet(r) = CircSet(a[1], a[2], a[3])
    [] op = "iterellipsepart" -> SeqSet(r) = EllPart(a[1], a[2])
    [] op \in {"iterellipse", "ellipsevert"} -> SeqSet(r) = EllSet(a[1], a[2], a[3], a[4])
    [] op = "recvert" -> r = RecVert(a[1], a[2], a[3], a[4])
    [] op = "rectboundarycoords" ->
         LET X == {a[1][i][1] : i \in 1 .. Len(a[1])} Y == {a[1][i][2] : i \in 1 .. Len(a[1])}
         IN  r = <<<<Min(X), Min(Y)>>, <<Max(X), Max(Y)>>>>
    [] op \in {"itergetneighbors", "getneighborlist"} -> Once(r) /\ SeqSet(r) = Around(a[1], a[2], a[3], a[4] = 1)
    [] op = "sortrecpoints" -> r = <<Min2(a[1], a[3]), Min2(a[2], a[4]), Max2(a[1], a[3]), Max2(a[2], a[4])>>
    [] op = "isinrectbnd" -> r = (IF InRec(<<a[1], a[2]>>, SubSeq(a, 3, 6)) THEN 1 ELSE 0)
    [] op = "listinrecbnd" -> r = (IF \A i \in 1 .. Len(a[1]) : InRec(a[1][i], SubSeq(a, 2, 5)) THEN 1 ELSE 0)
    [] op \in {"entirecircleisinboundary", "entireellipseisinboundary"} ->
         LET h == a[Len(a)] v == a[7] IN
         r = (IF \A s \in {-1, 1} : Between(a[1] + (s * h), a[3], a[4]) /\ Between(a[2] + (s * v), a[5], a[6]) THEN 1 ELSE 0)
    [] op = "floatregpolygonvert" -> NrPts(r, [i \in 1 .. a[4] |-> Corner(a, i - 1)])
    \* the list a[1] grows by the points of the curve
    [] op = "hilbertvert" ->
         LET H == Hilbert(C(a[2][1], a[2][2]), FInts(a[3]), a[4]) n == Len(a[1]) IN
         /\ Len(r) = n + Len(H) /\ SubSeq(r, 1, n) = a[1]
         /\ \A i \in 1 .. Len(H) : r[n + i][1] \in H[i][1] /\ r[n + i][2] \in H[i][2]
    [] op = "koch" ->
         LET d == CScale(CSub(a[2], a[1]), FR(1, 3)) IN NrPts(r, <<CAdd(a[1], d), KochTip(a[1], a[2], a[3]), CSub(a[2], d)>>)
    [] op = "kochcurvevert" -> NrPts(r, Append(Koch(a[1], a[2], a[3]), a[2]))
    [] op = "kochsnowflakevert" ->
         LET P == TLCEval([i \in 1 .. 3 |-> TPoint("regpolygonvert", <<a[1], a[2], a[3], 3, a[4]>>, i - 1)])
             K(u, v) == Append(Koch(C(u[1], u[2]), C(v[1], v[2]), a[5]), C(v[1], v[2]))
         IN  \E A \in Cand(P[1]), B \in Cand(P[2]), D \in Cand(P[3]) : NrPts(r, K(A, B) \o K(B, D) \o K(D, A))
    \* <<name, P, Q, p, q, n>>
    [] op = "fractalvalue" -> ValueOK(r, a[1], a[2], a[3], a[4], a[5], a[6])
    \* <<name, x1, y1, x2, y2, p, q, domain, n>>: every point of the rectangle once
    [] op = "fractalpoints" ->
         LET x1 == Min2(a[2], a[4]) x2 == Max2(a[2], a[4]) y1 == Min2(a[3], a[5]) y2 == Max2(a[3], a[5]) d == a[8] IN
         /\ Len(r) = (x2 - x1) * (y2 - y1)
         /\ {<<r[i][1], r[i][2]>> : i \in 1 .. Len(r)} = (x1 .. x2 - 1) \X (y1 .. y2 - 1)
         /\ \A i \in 1 .. Len(r) : ValueOK(r[i][3], a[1], Axis(d[1], d[2], x2 - x1, r[i][1] - x1), Axis(d[3], d[4], y2 - y1, r[i][2] - y1), a[6], a[7], a[9])
    \* the functions of Newton's method and their derivatives at a point, z^m - z^j - o
    [] op = "newtonfuncs" ->
         LET h == a[1] z == a[2]
             f == CSub(CSub(CInt(z, h[1]), CInt(z, h[2])), Re(F(h[3])))
             g == CSub(CScale(CInt(z, h[1] - 1), F(h[1])), IF h[2] = 0 THEN C0 ELSE CScale(CInt(z, h[2] - 1), F(h[2])))
         IN  NrPts(r, <<f, g>>)
PointEff(e, im, alt) == Ret(im, IF PointOK(e.op, e.a, e.ret.v, alt) THEN AnyRet ELSE Wrong)
=============================================================================
