------------------------------- MODULE OpsSolid -------------------------------
(***************************************************************************)
(* Solids in space: their vertices and surfaces, their projection on the   *)
(* screen and the surfaces that face the observer. Points are triples of   *)
(* doubles. The observer is at the origin; the projection is mirrored.     *)
(***************************************************************************)
EXTENDS OpsCurve

SolidFuncs == {"rotvec3D", "perspective", "surfacetest", "getnormvec", "gensides", "tetrahedra", "cube", "hexahedra", "octahedra",
  "decahedvertandsurface", "icosahedvertandsurface", "spherevertandsurface", "cylindervertandsurface", "conevertandsurface",
  "surfplot3Dvertandsurface", "polyboundary", "fillpolydata"}
SolidDraw == {"plotpolyfillist", "plot3d", "plot3Dsolid"}
SolidOps == SolidFuncs \cup SolidDraw

(* ---- vectors -------------------------------------------------------- *)
VAdd(u, v) == [i \in 1 .. Len(u) |-> FAdd(u[i], v[i])]
VSub(u, v) == [i \in 1 .. Len(u) |-> FSub(u[i], v[i])]
VScale(u, k) == [i \in 1 .. Len(u) |-> FMul(u[i], k)]
VDot(u, v) == FoldLeft(LAMBDA s, i : TLCEval(FAdd(s, FMul(u[i], v[i]))), F(0), [i \in 1 .. Len(u) |-> i])
VMag(u) == FSqrt(VDot(u, u))
VDist(u, v) == VMag(VSub(u, v))
Cross(u, v) == <<FSub(FMul(u[2], v[3]), FMul(u[3], v[2])), FSub(FMul(u[3], v[1]), FMul(u[1], v[3])), FSub(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
Det(u, v, w) == VDot(u, Cross(v, w))
Normal(u, v, w) == Cross(VSub(v, u), VSub(w, u))
VZero == <<F(0), F(0), F(0)>>
\* equal up to rounding errors of numbers of size k
Close(x, y, k) == FNearTol(x, y, FMul(FR(1, 1000000), FMax(F(1), k)))
VClose(u, v, k) == Len(u) = Len(v) /\ \A i \in 1 .. Len(u) : Close(u[i], v[i], k)
VsClose(U, V, k) == Len(U) = Len(V) /\ \A i \in 1 .. Len(U) : VClose(U[i], V[i], k)
Size(V) == FoldLeft(LAMBDA s, i : TLCEval(FMax(s, VMag(V[i]))), F(0), [i \in 1 .. Len(V) |-> i])

(* ---- solids --------------------------------------------------------- *)
\* S lists the surfaces by the indices (from 0) of their vertices.
FaceEdges(f) == {<<f[i], f[IF i = Len(f) THEN 1 ELSE i + 1]>> : i \in 1 .. Len(f)}
\* every edge belongs to exactly two surfaces, that run through it in opposite directions
Closed(S) ==
  LET E == [i \in 1 .. Len(S) |-> FaceEdges(S[i])]
      A == TLCEval(UNION {E[i] : i \in 1 .. Len(S)})
  IN  /\ FoldLeft(LAMBDA n, i : n + Len(S[i]), 0, [i \in 1 .. Len(S) |-> i]) = Cardinality(A)
      /\ \A d \in A : <<d[2], d[1]>> \in A /\ d[1] # d[2]
\* no other part of the surface than all of it is closed
Used(V, S) == UNION {{S[i][j] : j \in 1 .. Len(S[i])} : i \in 1 .. Len(S)} = 0 .. Len(V) - 1
At3(V, i) == V[i + 1]
Center(V) == VScale(FoldLeft(LAMBDA s, i : TLCEval(VAdd(s, V[i])), VZero, [i \in 1 .. Len(V) |-> i]), FR(1, Len(V)))
\* surfaces turn counterclockwise when seen from outside
Outward(V, S) ==
  LET c == TLCEval(Center(V))
  IN  \A i \in 1 .. Len(S) :
        LET u == At3(V, S[i][1]) IN FLt(F(0), VDot(Normal(u, At3(V, S[i][2]), At3(V, S[i][3])), VSub(u, c)))
SolidEdges(V, S) == {<<d[1], d[2]>> : d \in UNION {FaceEdges(S[i]) : i \in 1 .. Len(S)}}
EqualEdges(V, S, x, t) == \A d \in SolidEdges(V, S) : FNearTol(VDist(At3(V, d[1]), At3(V, d[2])), x, t)
Shape(r) == r.k = "seq" /\ Len(r.v) = 2 /\ \A i \in 1 .. Len(r.v[2]) : \A j \in 1 .. Len(r.v[2][i]) : r.v[2][i][j] \in 0 .. Len(r.v[1]) - 1
Polyhedron(V, S, nv, ns, m) == Len(V) = nv /\ Len(S) = ns /\ (\A i \in 1 .. ns : Len(S[i]) = m) /\ Used(V, S) /\ Closed(S) /\ Outward(V, S)
\* the shapes that are regular, with sides of length x
Regular(op, V, S, x) ==
  /\ CASE op = "tetrahedra" -> Polyhedron(V, S, 4, 4, 3)
       [] op = "cube" -> Polyhedron(V, S, 8, 6, 4)
       [] op = "hexahedra" -> Polyhedron(V, S, 5, 6, 3)
       [] op = "octahedra" -> Polyhedron(V, S, 6, 8, 3)
       [] op = "icosahedvertandsurface" -> Polyhedron(V, S, 12, 20, 3)
  /\ IF op = "icosahedvertandsurface"
     THEN /\ EqualEdges(V, S, FDiv(x, FSin(FMul(FR(2, 5), FPi))), FMul(x, FR(1, 1000000)))
          /\ \A i \in 1 .. Len(V) : Close(VDist(V[i], Center(V)), x, x)
     ELSE EqualEdges(V, S, x, FMul(x, FR(1, 1000000)))
  \* the faces of a cube are squares
  /\ op = "cube" => \A i \in 1 .. 6 : Close(FMul(x, FSqrt(F(2))), VDist(At3(V, S[i][1]), At3(V, S[i][3])), x)

\* two pyramids over a pentagon whose corners are rounded to integers
Deca(x) ==
  LET P == [i \in 1 .. 5 |-> LET p == TPoint("regpolygonvert", <<0, 0, x, 5, F(0)>>, i - 1) IN <<F(Min(p[1])), F(Min(p[2])), F(0)>>]
      z == FSqrt(FSub(FMul(VDist(P[1], P[2]), VDist(P[1], P[2])), F(x * x)))
  IN  <<<<F(0), F(0), FNeg(z)>>>> \o P \o <<<<F(0), F(0), z>>>>
RingPt(c, r, z, deg) == VAdd(c, <<FMul(r, FCos(Rad(deg))), FMul(r, FSin(Rad(deg))), z>>)
\* angles 0, step, ... below lim
Angles(step, lim) == [i \in 1 .. (lim + step - 1) \div step |-> (i - 1) * step]
SphereVert(c, r, step) ==
  LET T == Angles(step, 360)  P == Angles(step, 180)
      pt(th, ph) == VAdd(c, <<FMul(FMul(r, FSin(Rad(ph))), FCos(Rad(th))), FMul(FMul(r, FSin(Rad(ph))), FSin(Rad(th))), FMul(r, FCos(Rad(ph)))>>)
  IN  <<VAdd(c, <<F(0), F(0), r>>)>>
      \o FlattenSeq([i \in 1 .. Len(T) |-> [j \in 1 .. Len(P) - 1 |-> pt(T[i], P[j + 1])]])
      \o <<VAdd(c, <<F(0), F(0), FNeg(r)>>)>>
\* one step more than a full turn
CylVert(c, r, len, step) ==
  LET T == Angles(step, 360 + 2 * step)  z == FDiv(len, F(2))
  IN  FlattenSeq([i \in 1 .. Len(T) |-> <<RingPt(c, r, FNeg(z), T[i]), RingPt(c, r, z, T[i])>>])
CylSurf(n) ==
  <<[i \in 1 .. n |-> 2 * (n - i)]>> \o [i \in 1 .. Max2(n - 2, 0) |-> <<2 * i + 2, 2 * i + 3, 2 * i + 1, 2 * i>>] \o <<[i \in 1 .. n |-> 2 * i - 1]>>
ConeVert(c, r, len, step) ==
  LET T == Angles(step, 360 + 2 * step)  z == FDiv(len, F(2))
  IN  <<VSub(c, <<F(0), F(0), z>>)>> \o [i \in 1 .. Len(T) |-> RingPt(c, r, z, T[i])]
ConeSurf(n) == [i \in 1 .. Max2(n - 2, 0) |-> <<0, i + 2, i + 1>>] \o <<[i \in 1 .. n |-> i]>>
\* a surface over a grid of points; heights are given by the name of the function
Height(f, x, y) == CASE f = "plus" -> F(x + y) [] f = "times" -> FDiv(F(x * y), F(10)) [] f = "flat" -> F(7)
                     [] f = "wave" -> FMul(F(10), FSin(FDiv(F(x), F(10))))
Grid(x1, y1, x2, y2, step, f) ==
  LET nx == (x2 - x1 + step - 1) \div step  ny == (y2 - y1 + step - 1) \div step
  IN  [v |-> FlattenSeq([j \in 1 .. ny |-> [i \in 1 .. nx |-> <<F(x1 + (i - 1) * step), F(y1 + (j - 1) * step), Height(f, x1 + (i - 1) * step, y1 + (j - 1) * step)>>]]),
       s |-> FlattenSeq([j \in 1 .. ny - 1 |-> [i \in 1 .. nx - 1 |-> LET k == (j - 1) * nx + i - 1 IN <<k + nx, k + nx + 1, k + 1, k>>]])]

(* ---- projection ------------------------------------------------------ *)
\* rotation by <<sin, cos>> of roll, pitch and yaw, displacement
Turn(p, rv, t) ==
  LET x1 == FNeg(FAdd(FMul(rv[3][2], p[1]), FMul(rv[3][1], p[3])))
      z1 == FSub(FMul(rv[3][2], p[3]), FMul(rv[3][1], p[1]))
      y1 == FSub(FMul(rv[1][2], p[2]), FMul(rv[1][1], x1))
  IN  TLCEval(VAdd(t, <<FAdd(FMul(rv[1][2], x1), FMul(rv[1][1], p[2])),
                        FAdd(FMul(rv[2][1], z1), FMul(rv[2][2], y1)),
                        FSub(FMul(rv[2][2], z1), FMul(rv[2][1], y1))>>))
Project(p, d) == <<FNeg(FDiv(FMul(d, p[1]), p[3])), FNeg(FDiv(FMul(d, p[2]), p[3]))>>
RotVec(a) == [i \in 1 .. 3 |-> <<FSin(Rad(a[i])), FCos(Rad(a[i]))>>]
\* 1 if the surface faces the observer, -1 if not, 0 if it is seen edge on
Faces(u, v, w) ==
  LET t == FNeg(Det(u, v, w))  e == FMul(FR(1, 1000000), FMul(VMag(u), FMul(VMag(v), VMag(w))))
  IN  IF FLt(e, FAbs(t)) THEN IF FLt(t, F(0)) THEN 1 ELSE -1 ELSE 0
FaceOf(V, f) == Faces(At3(V, f[1]), At3(V, f[2]), At3(V, f[3]))
NormOf(V, f) == Normal(At3(V, f[1]), At3(V, f[2]), At3(V, f[3]))

(* ---- drawing --------------------------------------------------------- *)
\* brightness of a surface: by the angle between its normal and the line of sight
Lums(n) ==
  IF FEq(n[1], F(0)) /\ FEq(n[2], F(0)) /\ FEq(n[3], F(0)) THEN {127}
  ELSE {Max2(0, 127 + k) : k \in FTruncSet(FMul(FDiv(n[3], VMag(n)), F(128)))}
\* a polygon filled row by row, unless a part of it lies outside; its corners are given by sets
RECURSIVE CornerChoices(_)
CornerChoices(P) == IF P = <<>> THEN {<<>>} ELSE {<<c>> \o r : c \in Cand(Head(P)), r \in CornerChoices(Tail(P))}
FillP(im, v, alt) == IF PolyInside(im, v) THEN Sure(PolyFill(im, v, alt)) ELSE Sure({})
PolyFig(im, P, alt) ==
  IF \A i \in 1 .. Len(P) : Certain(P[i]) THEN FillP(im, [i \in 1 .. Len(P) |-> CHOOSE c \in Cand(P[i]) : TRUE], alt)
  ELSE OneOf({FillP(im, v, alt) : v \in CornerChoices(P)})
PolyOut(im, P) == \E i \in 1 .. Len(P) : \E c \in Cand(P[i]) : ~InB(im, c[1], c[2])
\* visible surfaces [p: corners on the screen, n: normal, k: 1 if surely visible]
Sides(V, rv, t, d, pos, S) ==
  LET R == TLCEval([i \in 1 .. Len(V) |-> Turn(V[i], rv, t)])
      Q == TLCEval([i \in 1 .. Len(V) |-> RndPt(VAdd(Project(R[i], d), pos))])
      L == [i \in 1 .. Len(S) |-> [p |-> [j \in 1 .. Len(S[i]) |-> Q[S[i][j] + 1]], n |-> NormOf(R, S[i]), k |-> FaceOf(R, S[i])]]
  IN  TLCEval(SelectSeq(L, LAMBDA s : s.k >= 0))
Given(P, N) == [i \in 1 .. Len(P) |-> [p |-> [j \in 1 .. Len(P[i]) |-> RndPt(P[i][j])], n |-> N[i], k |-> 1]]
Weak(G, s) == IF s.k = 1 THEN G ELSE Fig({}, G.may)
\* the faces in the order given, then the edges
FaceLayers(im, L, f, alt) == [i \in 1 .. Len(L) |-> [g |-> Weak(PolyFig(im, L[i].p, alt), L[i]), c |-> GradSet(im, Lums(L[i].n), f)]]
EdgeLayers(im, L, c, alt) == [i \in 1 .. Len(L) |-> [g |-> Weak(IPolyFig(im, L[i].p, alt), L[i]), c |-> {LineColor(im, c)}]]
Draw3D(im, O, L, solid, f, outline, c, alt) ==
  PaintSeq(im, O, TLCEval((IF solid THEN FaceLayers(im, L, f, alt) ELSE <<>>) \o (IF outline THEN EdgeLayers(im, L, c, alt) ELSE <<>>)))
Out(im, P) == \E i \in 1 .. Len(P) : \A c \in Cand(P[i]) : ~InB(im, c[1], c[2])
SideMsg(im, L, e) ==
  IF \E i \in 1 .. Len(L) : L[i].k = 1 /\ Out(im, L[i].p) THEN {M_region}
  ELSE IF \E i \in 1 .. Len(L) : PolyOut(im, L[i].p) THEN {M_region} \cap {e.msg[i] : i \in 1 .. Len(e.msg)} ELSE {}

SolidRet(op, a, r) ==
  LET ok(b) == IF b THEN r ELSE RSeq(<<"wrong">>) IN
  CASE op = "rotvec3D" -> ok(r.k = "seq" /\ VsClose(r.v, RotVec(a), F(1)))
    [] op = "perspective" ->
         LET R == [i \in 1 .. Len(a[1]) |-> Turn(a[1][i], RotVec(a[2]), a[3])]
             k == Size(R)
             P == [i \in 1 .. Len(R) |-> Project(R[i], a[4])]
         IN  ok(r.k = "seq" /\ VsClose(r.v[1], R, k) /\ VsClose(r.v[2], P, FAdd(k, Size(P))))
    [] op = "surfacetest" -> ok(r.k = "seq" /\ Close(r.v, FNeg(Det(a[1], a[2], a[3])), FMul(VMag(a[1]), FMul(VMag(a[2]), VMag(a[3])))))
    [] op = "getnormvec" -> ok(r.k = "seq" /\ VClose(r.v, Normal(a[1], a[2], a[3]), FMul(Size(a), Size(a))))
    [] op = "gensides" ->
         LET I == SelectSeq([i \in 1 .. Len(a[4]) |-> i], LAMBDA i : FaceOf(a[1], a[4][i]) >= 0)
             k == FAdd(Size(a[1]), FAdd(Size(a[2]), VMag(a[3])))
         IN  IF \E i \in 1 .. Len(a[4]) : FaceOf(a[1], a[4][i]) = 0 THEN AnyRet
             ELSE ok(/\ r.k = "seq" /\ Len(r.v) = 2 /\ Len(r.v[1]) = Len(I) /\ Len(r.v[2]) = Len(I)
                     /\ \A j \in 1 .. Len(I) :
                          LET f == a[4][I[j]] IN
                          /\ VsClose(r.v[1][j], [m \in 1 .. Len(f) |-> VAdd(At3(a[2], f[m]), a[3])], k)
                          /\ VClose(r.v[2][j], NormOf(a[1], f), FMul(k, k)))
    [] op \in {"tetrahedra", "cube", "hexahedra", "octahedra", "icosahedvertandsurface"} -> ok(Shape(r) /\ Regular(op, r.v[1], r.v[2], a[1]))
    [] op = "decahedvertandsurface" -> ok(Shape(r) /\ VsClose(r.v[1], Deca(a[1]), F(a[1])) /\ Polyhedron(r.v[1], r.v[2], 7, 10, 3))
    [] op = "spherevertandsurface" ->
         LET n == Len(Angles(a[3], 360))  m == Len(Angles(a[3], 180)) - 1
         IN  ok(/\ Shape(r) /\ VsClose(r.v[1], SphereVert(a[1], a[2], a[3]), FAdd(a[2], VMag(a[1])))
                /\ Len(r.v[2]) = n * (m + 1) /\ Used(r.v[1], r.v[2]) /\ Closed(r.v[2]) /\ Outward(r.v[1], r.v[2]))
    [] op = "cylindervertandsurface" ->
         ok(Shape(r) /\ VsClose(r.v[1], CylVert(a[1], a[2], a[3], a[4]), Size(<<a[1], <<a[2], a[3]>>>>)) /\ r.v[2] = CylSurf(Len(r.v[1]) \div 2))
    [] op = "conevertandsurface" ->
         ok(Shape(r) /\ VsClose(r.v[1], ConeVert(a[1], a[2], a[3], a[4]), Size(<<a[1], <<a[2], a[3]>>>>)) /\ r.v[2] = ConeSurf(Len(r.v[1]) - 1))
    [] op = "surfplot3Dvertandsurface" ->
         LET g == TLCEval(Grid(a[1], a[2], a[3], a[4], a[5], a[6])) IN ok(r.k = "seq" /\ Len(r.v) = 2 /\ VsClose(r.v[1], g.v, Size(g.v)) /\ r.v[2] = g.s)

SolidEff(e, im, O, alt) ==
  LET a == e.a IN
  CASE e.op \in {"polyboundary", "fillpolydata"} ->
         \* the points of the boundary, each once; the columns of each row
         LET E == TLCEval(PolyEdge(a[1]))
             ok == IF e.op = "polyboundary"
                   THEN e.ret.k = "seq" /\ Len(e.ret.v) = Cardinality(E) /\ {<<e.ret.v[i][1], e.ret.v[i][2]>> : i \in 1 .. Len(e.ret.v)} = E
                   ELSE e.ret.k = "seq" /\ LET s == SetToSortSeq(RowsOf(E), <)
                                           IN  e.ret.v = [i \in 1 .. Len(s) |-> <<s[i], SetToSortSeq(XsOf(E, s[i]), <)>>]
             in == \A p \in E : p[1] >= 0 /\ p[2] >= 0 /\ p[1] < a[2] /\ p[2] < a[3]
         IN  IF e.op = "fillpolydata" /\ ~in THEN WithMsg(Ret(im, RSeq(<<>>)), {M_region})
             ELSE Ret(im, IF ok THEN e.ret ELSE RSeq(<<"wrong">>))
    [] e.op \in SolidFuncs -> Ret(im, SolidRet(e.op, a, e.ret))
    [] e.op = "plotpolyfillist" ->
         LET L == Given(a[1], a[2]) IN WithMsg(InPlace(Draw3D(im, O, L, TRUE, a[3], FALSE, 0, alt)), SideMsg(im, L, e))
    [] e.op = "plot3d" ->
         LET L == Given(a[1], a[2]) IN WithMsg(InPlace(Draw3D(im, O, L, a[3] = 1, a[4], a[5] = 1, a[6], alt)), IF a[3] = 1 THEN SideMsg(im, L, e) ELSE {})
    [] e.op = "plot3Dsolid" ->
         LET L == Sides(a[1], RotVec(a[7]), a[8], F(a[9]), <<F(a[10][1]), F(a[10][2])>>, a[2])
         IN  WithMsg(InPlace(Draw3D(im, O, L, a[3] = 1, a[4], a[5] = 1, a[6], alt)), IF a[3] = 1 THEN SideMsg(im, L, e) ELSE {})
=============================================================================
