------------------------------- MODULE OpsMath -------------------------------
(***************************************************************************)
(* The mathematics behind the pictures: vectors, statistics, coordinates,  *)
(* interpolation, Fourier transforms, NewtonIt's method. All numbers are     *)
(* doubles; the arguments of an event are lists of lists of numbers.       *)
(***************************************************************************)
EXTENDS OpsAttr

(* ---- results: a judgement of what was returned ------------------------- *)
MTol(y) == FMul(FR(1, 10000000), FAdd(F1, FAbs(y)))
Nr(x, y) == FNearTol(x, y, MTol(y))
NrV(U, V) == Len(U) = Len(V) /\ \A i \in 1 .. Len(V) : Nr(U[i], V[i])
NrM(U, V) == Len(U) = Len(V) /\ \A i \in 1 .. Len(V) : NrV(U[i], V[i])
Whole(x, S) == \E n \in S : FEq(x, F(n))
WholeV(U, S(_), V) == Len(U) = Len(V) /\ \A i \in 1 .. Len(V) : Whole(U[i], S(V[i]))
\* angles that differ by full turns are the same
NrAngle(x, y) == FNearTol(FCos(x), FCos(y), FR(1, 10000000)) /\ FNearTol(FSin(x), FSin(y), FR(1, 10000000))

Map1(U, f(_)) == TLCEval([i \in 1 .. Len(U) |-> f(U[i])])
Map2(U, V, f(_, _)) == TLCEval([i \in 1 .. Min2(Len(U), Len(V)) |-> f(U[i], V[i])])
VAdd2(U, V) == Map2(U, V, FAdd)
VSub2(U, V) == Map2(U, V, FSub)
VMul2(U, V) == Map2(U, V, FMul)
MScale(U, k) == Map1(U, LAMBDA x : FMul(x, k))
VSum(U) == FoldLeft(LAMBDA s, x : FAdd(s, x), F0, U)
VMean(U) == FDiv(VSum(U), F(Len(U)))
MDot(U, V) == VSum(VMul2(U, V))
MMag(U) == FSqrt(MDot(U, U))
MDist(U, V) == MMag(VSub2(U, V))
VDev(U) == LET m == VMean(U) IN Map1(U, LAMBDA x : FSub(x, m))
VStd(U) == LET d == VDev(U) IN FSqrt(FDiv(MDot(d, d), F(Len(U))))
Col(M, k) == TLCEval([i \in 1 .. Len(M) |-> M[i][k]])
Limited(x, lo, hi) == FMax(lo, FMin(x, hi))
MCross(u, v) ==
  <<FSub(FMul(u[2], v[3]), FMul(u[3], v[2])), FSub(FMul(u[3], v[1]), FMul(u[1], v[3])), FSub(FMul(u[1], v[2]), FMul(u[2], v[1]))>>
\* least squares: Z are pairs
SXY(Z) == LET X == Col(Z, 1) Y == Col(Z, 2) IN MDot(VDev(X), VDev(Y))
SXX(Z) == LET d == VDev(Col(Z, 1)) IN MDot(d, d)
SYY(Z) == LET d == VDev(Col(Z, 2)) IN MDot(d, d)
Slope(Z) == FDiv(SXY(Z), SXX(Z))
Pearson(Z) == FDiv(SXY(Z), FSqrt(FMul(SXX(Z), SYY(Z))))
Cosine(u, v) == FDiv(MDot(u, v), FMul(MMag(u), MMag(v)))
Radian(x) == FDiv(FMul(x, FPi), F(180))

(* ---- interpolation ------------------------------------------------------ *)
Lerp(a, b, t) == FAdd(FMul(FSub(F1, t), a), FMul(t, b))
Part01(a, b, v) == IF FEq(a, b) THEN F1 ELSE FDiv(FSub(v, a), FSub(b, a))
RECURSIVE Poly(_, _)
\* c[1] + c[2] t + c[3] t^2 ...
Poly(c, t) == IF c = <<>> THEN F0 ELSE FAdd(Head(c), FMul(t, Poly(Tail(c), t)))
FInts(s) == [i \in 1 .. Len(s) |-> F(s[i])]
Smooth(k, t) ==
  CASE k = 1 -> Poly(FInts(<<0, 0, 3, -2>>), t)
    [] k = 2 -> Poly(FInts(<<0, 0, 0, 10, -15, 6>>), t)
    [] k = 3 -> Poly(FInts(<<0, 0, 0, 0, 35, -84, 70, -20>>), t)

(* ---- Fourier transform --------------------------------------------------- *)
\* sum of v[j] w^(jk) for w = e^(sign 2 pi i / n)
DFT(V, s) ==
  LET n == Len(V) IN
  TLCEval([k \in 1 .. n |->
    FoldLeft(LAMBDA z, j : CAdd(z, CMul(V[j], CPolar(F1, FDiv(FMul(F(2 * s * (((j - 1) * (k - 1)) % n)), FPi), F(n))))), C0, [j \in 1 .. n |-> j])])
NrC(z, w, m) == FNearTol(z[1], w[1], m) /\ FNearTol(z[2], w[2], m)

(* ---- NewtonIt's method for a polynomial of coefficients c (complex) -------- *)
RECURSIVE CPoly(_, _)
CPoly(c, z) == IF c = <<>> THEN C0 ELSE CAdd(Head(c), CMul(z, CPoly(Tail(c), z)))
CDeriv(c) == [i \in 1 .. Len(c) - 1 |-> CScale(c[i + 1], F(i))]
RECURSIVE NewtonIt(_, _, _, _, _)
\* <<"root", z, i>>, <<"none">>, or <<"any">> where rounding decides
NewtonIt(c, z, i, n, tol) ==
  IF i = n THEN <<"none">>
  ELSE LET f == CPoly(c, z)  g == CPoly(CDeriv(c), z)
       IN  IF CIs0(g) THEN <<"none">>
           ELSE IF FLt(CAbs(g), FR(1, 1000000)) THEN <<"any">>
           ELSE LET d == CDiv(f, g) k == CAbs(d)
                IN  IF FLt(k, FMul(tol, FR(99, 100))) THEN <<"root", z, i>>
                    ELSE IF FLt(k, FMul(tol, FR(101, 100))) THEN <<"any">>
                    ELSE NewtonIt(c, CSub(z, d), i + 1, n, tol)
NewtonOK(c, z, n, tol, r) ==
  LET N == NewtonIt(c, z, 0, n, tol) IN
  CASE N[1] = "any" -> TRUE
    [] N[1] = "none" -> r = <<>>
    [] OTHER -> Len(r) = 3 /\ NrC(<<r[1], r[2]>>, N[2], FR(1, 1000000)) /\ FEq(r[3], F(N[3]))

RECURSIVE Tower(_, _)
Tower(x, n) == IF n = 0 THEN F1 ELSE FPow(x, Tower(x, n - 1))

(* ---- functions of lists of numbers --------------------------------------- *)
Bits8(op, u, v) == CASE op = "xorvect" -> u ^^ v [] op = "andvect" -> u & v [] op = "orvect" -> u | v
Ints(U) == [i \in 1 .. Len(U) |-> FRound(U[i])]
VecFns == {"addvect", "subvect", "mulvect", "divvect", "scalarmulvect", "scalardivvect", "intscalarmulvect", "roundvect",
  "setmaxvec", "setminmaxvec", "intsetminmaxvec", "addvectpairlist", "addvecttripletlist", "addvectinlist", "trans", "addvectlist", "roundvectlist",
  "variance", "meanlist", "pivotlist", "ravel2D", "adddimz", "swapxy", "mirrorx", "mirrory", "mirrorvec", "mirror", "mirror1stquad",
  "xorvect", "andvect", "orvect", "bitmaskvect", "range2baseanddelta", "initmatrix", "normvec", "dircos", "diracos", "dirdeg", "centerpoint"}
NumFns == {"mean", "StdDev", "coefvar", "LSMslope", "LSMYint", "PearsonsR", "Rsquare", "TTest", "slope", "dotprod", "vmag", "dist", "det3D",
  "cosaffin", "setmax", "setmin", "setminmax", "intsetminmax", "sign", "delta", "lerp", "invlerp", "clamp", "smoothstep", "smootherstep",
  "smootheststep", "invsmoothstep", "smoothsteplerp", "smoothersteplerp", "smootheststeplerp", "tetration", "polarcoordangle2D", "anglebetween2Dlines"}
BoolFns == {"isinrange", "vectiszero", "isorthogonal"}
GeoFns == {"crossprod3d", "mathnormvec", "rect2sphericalcoord3D", "spherical2rectcoord3D", "rect2cylindricalcoord3D", "cylindrical2rectcoord3D",
  "polar2rectcoord2D", "rect2polarcoord2D", "rect2polarcoord2Dwithcenter", "computerotvec", "rotvec2D"}
OtherFns == {"fft", "ifft", "newtonmethod", "distancetable", "countdist", "randomvect", "addrndtovert"}
MathOps == VecFns \cup NumFns \cup BoolFns \cup GeoFns \cup OtherFns

VecOK(op, a, r) ==
  CASE op = "addvect" -> NrV(r, VAdd2(a[1], a[2]))
    [] op = "subvect" -> NrV(r, VSub2(a[1], a[2]))
    [] op = "mulvect" -> NrV(r, VMul2(a[1], a[2]))
    [] op = "divvect" -> NrV(r, Map2(a[1], a[2], FDiv))
    [] op = "scalarmulvect" -> NrV(r, MScale(a[1], a[2]))
    [] op = "scalardivvect" -> NrV(r, Map1(a[1], LAMBDA x : FDiv(x, a[2])))
    [] op = "intscalarmulvect" -> WholeV(r, FRoundSet, MScale(a[1], a[2]))
    [] op = "roundvect" -> WholeV(r, FRoundSet, a[1])
    [] op = "roundvectlist" -> Len(r) = Len(a[1]) /\ \A i \in 1 .. Len(r) : WholeV(r[i], FRoundSet, a[1][i])
    [] op = "setmaxvec" -> NrV(r, Map1(a[1], LAMBDA x : FMin(x, a[2])))
    [] op = "setminmaxvec" -> NrV(r, Map1(a[1], LAMBDA x : Limited(x, a[2], a[3])))
    [] op = "intsetminmaxvec" -> WholeV(r, LAMBDA x : {Clamp(n, FRound(a[2]), FRound(a[3])) : n \in FRoundSet(x)}, a[1])
    [] op = "addvectpairlist" -> NrV(r, VAdd2(a[1][1], a[1][2]))
    [] op = "addvecttripletlist" -> NrV(r, VAdd2(VAdd2(a[1][1], a[1][2]), a[1][3]))
    [] op = "addvectinlist" -> NrV(r, FoldLeft(LAMBDA u, v : VAdd2(u, v), a[1][1], Tail(a[1])))
    [] op = "trans" -> NrM(r, Map1(a[1], LAMBDA v : VAdd2(v, a[2])))
    [] op = "addvectlist" -> NrM(r, Map2(a[1], a[2], VAdd2))
    [] op = "variance" -> NrV(r, VDev(a[1]))
    [] op = "meanlist" -> NrV(r, Map1(a[1], VMean))
    [] op = "pivotlist" -> NrM(r, [k \in 1 .. Len(a[1][1]) |-> Col(a[1], k)])
    [] op = "ravel2D" -> NrV(r, FlattenSeq(a[1]))
    [] op = "adddimz" -> NrM(r, Map1(a[1], LAMBDA v : <<v[1], v[2], a[2]>>))
    [] op = "swapxy" -> NrV(r, <<a[1][2], a[1][1]>>)
    [] op = "mirrorx" -> NrM(r, <<<<FSub(a[1][1], a[2]), a[1][2]>>, <<FAdd(a[1][1], a[2]), a[1][2]>>>>)
    [] op = "mirrory" -> NrM(r, <<<<a[1][1], FSub(a[1][2], a[2])>>, <<a[1][1], FAdd(a[1][2], a[2])>>>>)
    [] op = "mirrorvec" -> NrM(r, <<VSub2(a[1], a[2]), VAdd2(a[1], a[2])>>)
    [] op = "mirror" -> NrV(r, <<FSub(a[1], a[2]), FAdd(a[1], a[2])>>)
    [] op = "mirror1stquad" ->
         LET xa == FSub(a[1], a[3][1]) xb == FAdd(a[1], a[3][1]) ya == FSub(a[2], a[3][2]) yb == FAdd(a[2], a[3][2])
         IN  NrM(r, <<<<xa, yb>>, <<xb, yb>>, <<xa, ya>>, <<xb, ya>>>>)
    [] op \in {"xorvect", "andvect", "orvect"} -> NrV(r, Map2(Ints(a[1]), Ints(a[2]), LAMBDA u, v : F(Bits8(op, u, v))))
    [] op = "bitmaskvect" -> NrV(r, Map1(Ints(a[1]), LAMBDA u : F(u & FRound(a[2]))))
    [] op = "range2baseanddelta" -> NrV(r, <<a[1][1], FSub(a[1][2], a[1][1])>>)
    [] op = "initmatrix" -> NrM(r, [i \in 1 .. FRound(a[2]) |-> [j \in 1 .. FRound(a[1]) |-> a[3]]])
    [] op \in {"normvec", "dircos"} -> NrV(r, Map1(a[1], LAMBDA x : FDiv(x, MMag(a[1]))))
    [] op = "diracos" -> NrV(r, Map1(a[1], FAcos))
    [] op = "dirdeg" -> NrV(r, Map1(a[1], LAMBDA x : FDiv(FMul(x, F(180)), FPi)))
    [] op = "centerpoint" -> NrV(r, <<F(FFloor(FDiv(FAdd(a[1], a[3]), F2))), F(FFloor(FDiv(FAdd(a[2], a[4]), F2)))>>)
NumOK(op, a, r) ==
  CASE op = "mean" -> Nr(r, VMean(a[1]))
    [] op = "StdDev" -> Nr(r, VStd(a[1]))
    [] op = "coefvar" -> Nr(r, FDiv(VStd(a[1]), VMean(a[1])))
    [] op = "LSMslope" -> Nr(r, Slope(a[1]))
    [] op = "LSMYint" -> Nr(r, FSub(VMean(Col(a[1], 2)), FMul(Slope(a[1]), VMean(Col(a[1], 1)))))
    [] op = "PearsonsR" -> Nr(r, Pearson(a[1]))
    [] op = "Rsquare" -> Nr(r, FMul(Pearson(a[1]), Pearson(a[1])))
    [] op = "TTest" -> LET p == Pearson(a[1]) d == FSub(F1, FMul(p, p)) IN
         FLt(d, FR(1, 1000000)) \/ Nr(r, FMul(p, FSqrt(FDiv(F(Len(a[1]) - 2), d))))
    [] op = "slope" -> Nr(r, FDiv(FSub(a[2][2], a[1][2]), FSub(a[2][1], a[1][1])))
    [] op = "dotprod" -> Nr(r, MDot(a[1], a[2]))
    [] op = "vmag" -> Nr(r, MMag(a[1]))
    [] op = "dist" -> Nr(r, MDist(a[1], a[2]))
    [] op = "det3D" -> Nr(r, MDot(a[1], MCross(a[2], a[3])))
    [] op = "cosaffin" -> Nr(r, Cosine(a[1], a[2]))
    [] op = "setmax" -> Nr(r, FMin(a[1], a[2]))
    [] op = "setmin" -> Nr(r, FMax(a[1], a[2]))
    [] op \in {"setminmax", "clamp"} -> Nr(r, Limited(a[1], a[2], a[3]))
    [] op = "intsetminmax" -> Whole(r, {Clamp(n, FRound(a[2]), FRound(a[3])) : n \in FRoundSet(a[1])})
    [] op = "sign" -> FEq(r, F(FSgn(a[1])))
    [] op = "delta" -> Nr(r, FSub(a[1][2], a[1][1]))
    [] op = "lerp" -> Nr(r, Lerp(a[1], a[2], a[3]))
    [] op = "invlerp" -> Nr(r, Part01(a[1], a[2], a[3]))
    [] op = "smoothstep" -> Nr(r, Smooth(1, Part01(a[1], a[2], a[3])))
    [] op = "smootherstep" -> Nr(r, Smooth(2, Part01(a[1], a[2], a[3])))
    [] op = "smootheststep" -> Nr(r, Smooth(3, Part01(a[1], a[2], a[3])))
    \* the inverse of the first
    [] op = "invsmoothstep" -> FLe(FNeg(FR(1, 1000000)), r) /\ FLe(r, FAdd(F1, FR(1, 1000000))) /\ Nr(Smooth(1, r), a[1])
    [] op = "smoothsteplerp" -> Nr(r, Lerp(a[1], a[2], Smooth(1, IF FEq(a[1], a[2]) THEN F1 ELSE a[3])))
    [] op = "smoothersteplerp" -> Nr(r, Lerp(a[1], a[2], Smooth(2, IF FEq(a[1], a[2]) THEN F1 ELSE a[3])))
    [] op = "smootheststeplerp" -> Nr(r, Lerp(a[1], a[2], Smooth(3, IF FEq(a[1], a[2]) THEN F1 ELSE a[3])))
    [] op = "tetration" -> Nr(r, Tower(a[1], FRound(a[2])))
    \* from the upward direction, clockwise, up to a full turn
    [] op = "polarcoordangle2D" -> /\ NrAngle(r, FAtan2(a[1][1], FNeg(a[1][2])))
                                   /\ FLe(F0, r) /\ IF FLe(F0, a[1][1]) THEN FLe(r, FAdd(FPi, FR(1, 1000000))) ELSE FLe(FSub(FPi, FR(1, 1000000)), r)
    \* the direction of the line through two points, either way
    [] op = "anglebetween2Dlines" -> NrAngle(FMul(F2, r), FMul(F2, FAtan2(FSub(a[2][2], a[1][2]), FSub(a[2][1], a[1][1]))))
BoolVal(op, a) ==
  CASE op = "isinrange" -> FLt(a[3], a[1]) /\ FLt(a[1], a[2])
    [] op = "vectiszero" -> \A i \in 1 .. Len(a[1]) : FEq(a[1][i], F0)
    [] op = "isorthogonal" -> FEq(MDot(a[1], a[2]), F0)
GeoOK(op, a, r) ==
  CASE op = "crossprod3d" -> NrV(r, IF Len(a[1]) = 3 /\ Len(a[2]) = 3 THEN MCross(a[1], a[2]) ELSE <<F0, F0, F0>>)
    [] op = "mathnormvec" -> NrV(r, MCross(VSub2(a[2], a[1]), VSub2(a[3], a[1])))
    [] op = "rect2sphericalcoord3D" -> Len(r) = 3 /\ Nr(r[1], MMag(a[1])) /\ NrAngle(r[2], FAtan2(a[1][2], a[1][1])) /\ FNearTol(FCos(r[3]), FDiv(a[1][3], MMag(a[1])), FR(1, 10000000)) /\ FLe(F0, r[3]) /\ FLe(r[3], FAdd(FPi, FR(1, 1000000)))
    [] op = "spherical2rectcoord3D" ->
         LET p == a[1][1] t == a[1][2] q == a[1][3] s == FMul(p, FSin(q)) IN NrV(r, <<FMul(s, FCos(t)), FMul(s, FSin(t)), FMul(p, FCos(q))>>)
    [] op = "rect2cylindricalcoord3D" -> Len(r) = 3 /\ Nr(r[1], FHypot(a[1][1], a[1][2])) /\ NrAngle(r[2], FAtan2(a[1][2], a[1][1])) /\ Nr(r[3], a[1][3])
    [] op = "cylindrical2rectcoord3D" -> NrV(r, <<FMul(a[1][1], FCos(a[1][2])), FMul(a[1][1], FSin(a[1][2])), a[1][3]>>)
    [] op = "polar2rectcoord2D" -> NrV(r, <<FMul(a[1][1], FCos(a[1][2])), FMul(a[1][1], FSin(a[1][2]))>>)
    [] op = "rect2polarcoord2D" -> Len(r) = 2 /\ Nr(r[1], MMag(a[1])) /\ NrAngle(r[2], FAtan2(a[1][2], a[1][1]))
    [] op = "rect2polarcoord2Dwithcenter" -> LET v == VSub2(a[2], a[1]) IN Len(r) = 2 /\ Nr(r[1], MMag(v)) /\ NrAngle(r[2], FAtan2(v[1], FNeg(v[2])))
    [] op = "computerotvec" -> NrV(r, <<FSin(Radian(a[1])), FCos(Radian(a[1]))>>)
    [] op = "rotvec2D" -> NrV(r, <<FSub(FMul(a[1][1], a[2][2]), FMul(a[1][2], a[2][1])), FAdd(FMul(a[1][1], a[2][1]), FMul(a[1][2], a[2][2]))>>)
Pairs(n) == {<<i, j>> \in (1 .. n) \X (1 .. n) : i # j}
OtherOK(op, a, r) ==
  CASE op \in {"fft", "ifft"} ->
         LET D == DFT(a[1], IF op = "fft" THEN -1 ELSE 1) IN Len(r) = Len(D) /\ \A i \in 1 .. Len(D) : NrC(r[i], D[i], FR(1, 1000000))
    [] op = "newtonmethod" -> NewtonOK(a[1], a[2], FRound(a[3]), a[4], r)
    [] op = "distancetable" ->
         LET n == Len(a[1]) P == SetToSortSeq(Pairs(n), LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
         IN  Len(r) = Len(P) /\ \A k \in 1 .. Len(P) :
               FEq(r[k][1], F(P[k][1] - 1)) /\ FEq(r[k][2], F(P[k][2] - 1)) /\ Nr(r[k][3], MDist(a[1][P[k][1]], a[1][P[k][2]]))
    \* how often each distance occurs: pairs in the order of first occurrence
    [] op = "countdist" ->
         LET d == [i \in 1 .. Len(a[1]) |-> a[1][i][3]]
         IN  /\ \A k \in 1 .. Len(r) : FEq(r[k][2], F(Cardinality({i \in 1 .. Len(d) : FEq(d[i], r[k][1])}))) /\ FLt(F0, r[k][2])
             /\ \A i \in 1 .. Len(d) : Cardinality({k \in 1 .. Len(r) : FEq(r[k][1], d[i])}) = 1
    [] op = "randomvect" -> Len(r) = 3 /\ \A i \in 1 .. 3 : Whole(r[i], FRound(a[1]) .. FRound(a[2]))
    [] op = "addrndtovert" -> Len(r) = Len(a[1]) /\ \A i \in 1 .. Len(r) :
         Len(r[i]) = 3 /\ \A k \in 1 .. 3 : \E n \in FRound(a[2]) .. FRound(a[3]) : Nr(r[i][k], FAdd(a[1][i][k], F(n)))

MathEff(e, im) ==
  LET a == e.a r == e.ret.v  OK(b) == Ret(im, IF b THEN AnyRet ELSE Wrong) IN
  CASE e.op \in VecFns -> OK(VecOK(e.op, a, r))
    [] e.op \in NumFns -> OK(NumOK(e.op, a, r))
    [] e.op \in BoolFns -> Ret(im, RBool(BoolVal(e.op, a)))
    [] e.op \in GeoFns -> OK(GeoOK(e.op, a, r))
    [] e.op \in OtherFns -> OK(OtherOK(e.op, a, r))
=============================================================================
