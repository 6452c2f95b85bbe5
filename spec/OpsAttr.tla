------------------------------- MODULE OpsAttr -------------------------------
(***************************************************************************)
(* Attractors: orbits of maps of the plane, two-dimensional histograms,    *)
(* and iterated function systems with random choice. Orbits are chaotic,   *)
(* so each point is judged from the one before it.                         *)
(***************************************************************************)
EXTENDS OpsBytes

OrbitOps == {"ikedaattractorlist", "nattractorlist", "gumowskimiraattractorlist", "peterdejongattractorlist",
  "cliffordattractorlist", "fractaldreamattractorlist", "hopalongattractorlist", "symmetriciconattractorlist", "duffingattractorlist"}
AttrDraw == {"ikedaattractor", "nattractor", "gumowskimiraattractor", "peterdejongattractor", "cliffordattractor",
  "fractaldreamattractor", "hopalongattractor", "symmetriciconattractor", "duffingattractor", "plotattractor", "plotattractorcomplex"}
HistOps == {"histogram2D", "histogram2Dcomplex", "getdomainbounds", "getcomplexdomainbounds"}
IFSOps == {"iterIFS", "ifschoice", "IFS", "fern", "fern2file"}
AttrOps == OrbitOps \cup AttrDraw \cup HistOps \cup IFSOps

(* ---- maps: p the parameters, z the point, i how many steps before ------ *)
RECURSIVE CPowInt(_, _)
CPowInt(z, n) == IF n = 0 THEN C1 ELSE CMul(z, CPowInt(z, n - 1))
Gumow(x, a) == LET q == FAdd(F1, FMul(x, x)) IN
  FAdd(FMul(a, x), FDiv(FMul(FMul(FMul(F2, FSub(F1, a)), x), x), FMul(q, q)))
NextPt(op, p, z, i) ==
  LET x == z[1] y == z[2] a == p[1] b == p[2] c == p[3] d == p[4] IN
  CASE op = "ikedaattractorlist" ->
         LET t == FSub(c, FDiv(d, FAdd(F1, CNorm(z)))) w == CMul(z, CPolar(b, t)) IN <<FAdd(a, w[1]), w[2]>>
    [] op = "nattractorlist" ->
         LET u == FAdd(FMul(a, FSin(FMul(a, y))), FMul(b, FCos(FMul(b, x))))
         IN  <<u, FAdd(FMul(c, FSin(FMul(c, u))), FMul(d, FCos(FMul(d, y))))>>
    [] op = "gumowskimiraattractorlist" ->
         LET u == FAdd(FMul(b, y), Gumow(x, a)) IN <<u, FSub(Gumow(u, a), x)>>
    [] op = "peterdejongattractorlist" ->
         <<FSub(FSin(FMul(a, y)), FCos(FMul(b, x))), FSub(FSin(FMul(c, x)), FCos(FMul(d, y)))>>
    [] op = "cliffordattractorlist" ->
         <<FAdd(FSin(FMul(a, y)), FMul(c, FCos(FMul(a, x)))), FAdd(FSin(FMul(b, x)), FMul(d, FCos(FMul(b, y))))>>
    [] op = "fractaldreamattractorlist" ->
         <<FAdd(FSin(FMul(b, y)), FMul(c, FSin(FMul(b, x)))), FAdd(FSin(FMul(a, x)), FMul(d, FSin(FMul(a, y))))>>
    [] op = "hopalongattractorlist" ->
         <<FSub(y, FMul(F(FSgn(x)), FSqrt(FAbs(FSub(FMul(b, x), c))))), FSub(a, x)>>
    [] op = "symmetriciconattractorlist" ->   \* a, b, g, o, l, degree
         LET n == p[6] q == CPowInt(z, n - 1)
             k == FAdd(FAdd(FMul(a, CNorm(z)), p[5]), FMul(b, CMul(z, q)[1]))
             w == CMul(<<F0, d>>, CConj(z))
         IN  CSub(CAdd(CScale(z, k), CScale(CConj(q), c)), w)
    [] op = "duffingattractorlist" ->         \* a, b, w, dt, first time
         <<FAdd(x, FMul(y, d)),
           FAdd(y, FMul(FAdd(FSub(FSub(x, FMul(x, FMul(x, x))), FMul(a, y)), FMul(b, FCos(FMul(c, FAdd(p[5], FMul(F(i), d)))))), d))>>
NearPt(u, v) == LET s == FMul(FR(1, 1000000000), FAdd(F1, FAdd(FAbs(v[1]), FAbs(v[2])))) IN FNearTol(u[1], v[1], s) /\ FNearTol(u[2], v[2], s)
\* V: the points the library returns, z0: where the orbit starts
OrbitOK(op, p, z0, n, V) ==
  Len(V) = n /\ \A i \in 1 .. n : NearPt(V[i], NextPt(op, p, IF i = 1 THEN z0 ELSE V[i - 1], i - 1))

(* ---- histograms -------------------------------------------------------- *)
Lowest(V, k) == FoldLeft(LAMBDA m, v : FMin(m, v[k]), V[1][k], V)
Highest(V, k) == FoldLeft(LAMBDA m, v : FMax(m, v[k]), V[1][k], V)
DomBounds(V) == TLCEval(<<Lowest(V, 1), Highest(V, 1), Lowest(V, 2), Highest(V, 2)>>)
\* the bins a point may be counted in: <<row, column>>
BinSet(v, D, nx, ny) ==
  {<<q, p>> : q \in FTruncSet(FDiv(FMul(FSub(v[2], D[3]), F(ny - 1)), FSub(D[4], D[3]))),
              p \in FTruncSet(FDiv(FMul(FSub(v[1], D[1]), F(nx - 1)), FSub(D[2], D[1])))}
\* every point in one of its bins, no other counts: T are the counts by row
RECURSIVE SumSeq2(_)
SumSeq2(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq2(Tail(s))
HistOK(V, nx, ny, T) ==
  LET D == DomBounds(V)
      S == TLCEval([i \in 1 .. Len(V) |-> {b \in BinSet(V[i], D, nx, ny) : b[1] >= 0 /\ b[1] < ny /\ b[2] >= 0 /\ b[2] < nx}])
      Cells == (0 .. ny - 1) \X (0 .. nx - 1)
      CountMin == TLCEval([c \in Cells |-> Cardinality({i \in 1 .. Len(V) : S[i] = {c}})])
      CountMax == TLCEval([c \in Cells |-> Cardinality({i \in 1 .. Len(V) : c \in S[i]})])
  IN  /\ Len(T) = ny /\ \A q \in 1 .. ny : Len(T[q]) = nx
      /\ \A c \in Cells : T[c[1] + 1][c[2] + 1] >= CountMin[c] /\ T[c[1] + 1][c[2] + 1] <= CountMax[c]
      /\ SumSeq2([q \in 1 .. ny |-> SumSeq2(T[q])]) = Len(V)
\* a picture of these points: the count k of a bin, as far as the colours tell
HistImg(out, V, nx, ny, b) ==
  LET D == DomBounds(V)
      S == TLCEval([i \in 1 .. Len(V) |-> BinSet(V[i], D, nx, ny)])
      Cells == (0 .. ny - 1) \X (0 .. nx - 1)
      CountMin == TLCEval([c \in Cells |-> Cardinality({i \in 1 .. Len(V) : S[i] = {c}})])
      CountMax == TLCEval([c \in Cells |-> Cardinality({i \in 1 .. Len(V) : c \in S[i]})])
      NCol == 2 ^ b
      \* the colour of a count k where counts run from lo to hi
      Col(k, lo, hi) == FTruncSet(FDiv(FMul(F(k - lo), F(NCol - 1)), F(hi - lo)))
      Ok(lo, hi) == \A c \in Cells : \E k \in CountMin[c] .. CountMax[c] : At(out, c[2], c[1]) \in Col(k, lo, hi)
      L0 == Min({CountMin[c] : c \in Cells}) L1 == Min({CountMax[c] : c \in Cells})
      H0 == Max({CountMin[c] : c \in Cells}) H1 == Max({CountMax[c] : c \in Cells})
  IN  out.w = nx /\ out.h = ny /\ out.b = b /\ \E lo \in L0 .. L1 : \E hi \in H0 .. H1 : hi > lo /\ Ok(lo, hi)

(* ---- iterated function systems ----------------------------------------- *)
DD(p, q) == FR(p, q)
D0 == F(0)
DHalf == FR(1, 2)
DThird == FR(1, 3)
IFSMaps(name) ==
  CASE name = "fern" -> <<<<D0, D0, D0, DD(4, 25), D0, D0>>, <<DD(1, 5), DD(-13, 50), DD(23, 100), DD(11, 50), D0, DD(8, 5)>>,
                          <<DD(-3, 20), DD(7, 25), DD(13, 50), DD(6, 25), D0, DD(11, 25)>>, <<DD(17, 20), DD(1, 25), DD(-1, 25), DD(17, 20), D0, DD(8, 5)>>>>
    [] name = "tree" -> <<<<D0, DD(1, 5), D0, DHalf, D0, D0>>, <<DD(1, 10), D0, D0, DD(1, 10), D0, DD(1, 5)>>,
                          <<DD(21, 50), DD(-21, 50), DD(21, 50), DD(21, 50), D0, DD(1, 5)>>, <<DD(21, 50), DD(21, 50), DD(-21, 50), DD(21, 50), D0, DD(1, 5)>>>>
    [] name = "cantortree" -> <<<<DThird, D0, D0, DThird, D0, D0>>, <<DThird, D0, D0, DThird, F1, D0>>, <<DD(2, 3), D0, D0, DD(2, 3), DHalf, DHalf>>>>
    [] name = "sierpinskitriangle" -> <<<<DHalf, D0, D0, DHalf, D0, D0>>, <<DHalf, D0, D0, DHalf, F1, D0>>, <<DHalf, D0, D0, DHalf, DHalf, DHalf>>>>
\* how often of 3000 each map is chosen
IFSProb(name) ==
  CASE name = "fern" -> <<27, 192, 192, 2589>> [] name = "tree" -> <<150, 450, 1200, 1200>> [] OTHER -> <<1000, 1000, 1000>>
IFSApply(m, z) == <<FAdd(FAdd(FMul(m[1], z[1]), FMul(m[2], z[2])), m[5]), FAdd(FAdd(FMul(m[3], z[1]), FMul(m[4], z[2])), m[6])>>
\* the pixels of a point: r = <<x1, y1, x2, y2>> sorted, s = <<xscale, yscale, xoffset, yoffset>>
IFSPix(z, r, s) ==
  {<<px, py>> : px \in FTruncSet(FAdd(FMul(z[1], F(s[1])), F(s[3] + r[1]))),
                py \in FTruncSet(FSub(F(r[4] + s[4]), FMul(z[2], F(s[2]))))}
Inner(r, p) == p[1] > r[1] /\ p[1] < r[3] /\ p[2] > r[2] /\ p[2] < r[4]
RECURSIVE IFSPath(_, _, _, _, _, _)
\* can n steps from z yield the pixels W
IFSPath(M, z, r, s, n, W) ==
  IF n = 0 THEN W = <<>>
  ELSE Len(W) <= n /\ \E k \in 1 .. Len(M) :
    LET v == TLCEval(IFSApply(M[k], z)) IN
    \E p \in IFSPix(v, r, s) : IF Inner(r, p) THEN W # <<>> /\ W[1] = p /\ IFSPath(M, v, r, s, n - 1, Tail(W))
                               ELSE IFSPath(M, v, r, s, n - 1, W)
\* N starts of one step each: the number of times a pixel is yielded is about its probability
IFSChoiceOK(name, r, s, W) ==
  LET M == IFSMaps(name) P == IFSProb(name) z == <<F(r[1]), F(r[2])>>
      Raw == TLCEval([k \in 1 .. Len(M) |-> IFSPix(IFSApply(M[k], z), r, s)])
      Pix == TLCEval([k \in 1 .. Len(M) |-> {p \in Raw[k] : Inner(r, p)}])
      Got(S) == SumSeq2([i \in 1 .. Len(W) |-> IF <<W[i][1], W[i][2]>> \in S THEN W[i][3] ELSE 0])
      AboutN(n, p) == (n - p) * (n - p) <= 49 * p + 49
      \* maps whose pixels cannot be told apart from those of k
      J(k) == {j \in 1 .. Len(M) : Raw[j] \cap Raw[k] # {}}
      Told(k) == Raw[k] = Pix[k] /\ \A j \in J(k) : Raw[j] = Raw[k]
  IN  /\ \A i \in 1 .. Len(W) : \E k \in 1 .. Len(M) : <<W[i][1], W[i][2]>> \in Pix[k]
      /\ \A k \in 1 .. Len(M) : Told(k) =>
            AboutN(Got(Pix[k]), SumSeq2([j \in 1 .. Len(M) |-> IF j \in J(k) THEN P[j] ELSE 0]))
\* pixels painted in colour c strictly inside of r, and nothing else
IFSPainted(im, z, r, c) ==
  /\ z.w = im.w /\ z.h = im.h /\ z.b = im.b /\ z.pal = im.pal /\ z.hx = im.hx
  /\ \A i \in 1 .. Len(im.px) : z.px[i] = im.px[i] \/
       (z.px[i] = NormC(im.b, c) /\ Inner(r, <<(i - 1) % im.w, (i - 1) \div im.w>>))
\* the fern reaches from -2.182 to 2.656 and up to 9.998 times the scale
FernOK(im, z, r, c) ==
  LET s == (r[4] - r[2]) \div 10  m == r[1] + (r[3] - r[1]) \div 2
      W == {i \in 1 .. Len(im.px) : z.px[i] = NormC(im.b, c) /\ Inner(r, <<(i - 1) % im.w, (i - 1) \div im.w>>)}
      X == {(i - 1) % im.w : i \in W}  Y == {(i - 1) \div im.w : i \in W}
      FLeft == m - ((2183 * s) \div 1000) - 1  FRight == m + ((2657 * s) \div 1000) + 1  FTop == r[4] - 10 * s
      \* before the start of r at the origin the first points lie outside
      Fits == r[1] = 0 /\ r[2] = 0 /\ s >= 2
  IN  IFSPainted(im, z, r, c) /\
      (Fits /\ (\A i \in 1 .. Len(im.px) : im.px[i] # NormC(im.b, c)) =>
        /\ \A x \in X : x >= FLeft /\ x <= FRight
        /\ r[3] - r[1] >= 4 * s =>
             /\ \E x \in X : x <= Max2(r[1] + 1, FLeft + 2)
             /\ \E x2 \in X : x2 >= Min2(r[3] - 1, FRight - 2)
             /\ \E y \in Y : y <= Max2(r[2] + 1, FTop + 2)
        /\ \A y \in Y : y >= FTop)

SortR(a) == <<Min2(a[1], a[3]), Min2(a[2], a[4]), Max2(a[1], a[3]), Max2(a[2], a[4])>>
\* the bitmap observed where it may be so, otherwise one that it cannot be
TakeIf(im, Z, ok) == [Eff0(im) EXCEPT !.s = IF ok THEN Z ELSE [Z EXCEPT !.hx = "not the picture"]]
Wrong == [k |-> "wrong", v |-> 0]
AttrEff(e, im, Z, Zd, alt) ==
  LET a == e.a
      OK(b) == Ret(im, IF b THEN AnyRet ELSE Wrong)
  IN
  CASE e.op \in OrbitOps -> OK(OrbitOK(e.op, a[1], a[2], a[3], e.ret.v))
    [] e.op \in {"histogram2D", "histogram2Dcomplex"} -> OK(HistOK(a[1], a[2], a[3], e.ret.v))
    [] e.op \in {"getdomainbounds", "getcomplexdomainbounds"} -> LET D == DomBounds(a[1]) IN OK(Len(e.ret.v) = 4 /\ \A i \in 1 .. 4 : FEq(e.ret.v[i], D[i]))
    \* the points, width, height, depth
    [] e.op \in AttrDraw ->
         IF Zd.w > 0 /\ HistImg(Zd, a[1], a[2], a[3], a[4]) THEN [New(im, [Blank(a[2], a[3], a[4]) EXCEPT !.px = Zd.px]) EXCEPT !.ret = IF e.d > 8 THEN None ELSE RImg]
         ELSE [New(im, NoImg) EXCEPT !.ret = Wrong]
    [] e.op = "iterIFS" -> OK(IFSPath(IFSMaps(a[1]), LET r == SortR(a[2]) IN <<F(r[1]), F(r[2])>>, SortR(a[2]), a[3], a[4], e.ret.v))
    [] e.op = "ifschoice" -> OK(IFSChoiceOK(a[1], SortR(a[2]), a[3], e.ret.v))
    [] e.op = "IFS" -> TakeIf(im, Z, IFSPainted(im, Z, SortR(a[2]), a[4]))
    [] e.op = "fern" -> IF ~RectIn(im, a[1], a[2], a[3], a[4]) THEN Reject(im, M_region) ELSE TakeIf(im, Z, FernOK(im, Z, SortR(a), a[5]))
    [] e.op = "fern2file" ->
         IF ~RectIn(im, a[1], a[2], a[3], a[4]) THEN [Reject(im, M_region) EXCEPT !.d = im]
         ELSE [Eff0(im) EXCEPT !.d = IF FernOK(im, Zd, SortR(a), a[5]) THEN Zd ELSE [Zd EXCEPT !.hx = "not the picture"]]
=============================================================================
