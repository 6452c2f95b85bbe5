-------------------------------- MODULE OpsFrac --------------------------------
(***************************************************************************)
(* Fractals: every pixel of the region gets the colour of the number that  *)
(* the iteration of its point of the complex plane yields. An iteration    *)
(* number is given by the set of its possible values; the empty set stands *)
(* for one that rounding errors decide.                                    *)
(***************************************************************************)
EXTENDS OpsText, Cplx

\* operations in memory and the ones that write a new file
FracFile == [savemandelbrotfractal2file |-> "mandelbrot", savemultibrotfractal2file |-> "multibrot",
  savemulticirclefractal2file |-> "multicircle", savemultihyperbolafractal2file |-> "multihyperbola",
  savemultisuperellipsefractal2file |-> "multisuperellipse", saveastroidfractal2file |-> "astroidfractal",
  savelemniscatefractal2file |-> "lemniscatefractal", savexorfractal2file |-> "xorfractal", savexordivfractal2file |-> "xordivfractal",
  savetetrationfractal2file |-> "tetrationfractal", savesinjulia2file |-> "sinjulia", savecosjulia2file |-> "cosjulia",
  savespiraljulia2file |-> "spiraljulia", savelambdafractal2file |-> "lambdafractal", savejuliafractal2file |-> "julia",
  savemultijuliafractal2file |-> "multijulia", savengonfractal2file |-> "ngonfractal",
  savemultibiomorphvariantfractal2file |-> "multibiomorphvariant", savemultibiomorphphasevariantfractal2file |-> "multibiomorphphasevariant",
  savemultibiomorphfractal2file |-> "multibiomorph", savemultisinbiomorphfractal2file |-> "multisinbiomorph",
  savemulticosbiomorphfractal2file |-> "multicosbiomorph", savemulticoshbiomorphfractal2file |-> "multicoshbiomorph",
  savemultisinhbiomorphfractal2file |-> "multisinhbiomorph", savemultiexpbiomorphfractal2file |-> "multiexpbiomorph",
  savemulti2ndtetrationbiomorphfractal2file |-> "multi2ndtetrationbiomorph",
  savemultizconjugatebiomorphfractal2file |-> "multizconjugatebiomorph", savemultitanbiomorphfractal2file |-> "multitanbiomorph",
  savemultitanhbiomorphfractal2file |-> "multitanhbiomorph", savetricornfractal2file |-> "tricorn",
  savemulticornfractal2file |-> "multicorn", savebarnsleytreefractal2file |-> "barnsleytree", savemarekdragon2file |-> "marekdragon",
  savenewtonsfractal2file |-> "newtonsfractal"]
FracMem == {FracFile[n] : n \in DOMAIN FracFile}
FracOps == FracMem \cup DOMAIN FracFile

Biomorph == {"multibiomorph", "multibiomorphphasevariant", "multisinbiomorph", "multicosbiomorph", "multicoshbiomorph",
  "multisinhbiomorph", "multiexpbiomorph", "multi2ndtetrationbiomorph", "multizconjugatebiomorph", "multitanbiomorph",
  "multitanhbiomorph"}
Julia == {"julia", "multijulia"}
Brot == {"mandelbrot", "multibrot", "tricorn", "multicorn"}

\* one step of the iteration; p is the parameter pair, k the point of the plane
Re(x) == <<x, F(0)>>
FStep(op, z, p, q, k) ==
  CASE op \in {"mandelbrot"} -> CAdd(CMul(z, z), k)
    [] op = "multibrot" -> CAdd(CPow(z, Re(p)), k)
    [] op = "tricorn" -> CAdd(CMul(CConj(z), CConj(z)), k)
    [] op = "multicorn" -> CAdd(CPow(CConj(z), Re(p)), k)
    [] op = "julia" -> CAdd(CMul(z, z), p)
    [] op \in {"multijulia", "multibiomorph", "multibiomorphvariant"} -> CAdd(CPow(z, Re(q)), p)
    [] op = "lambdafractal" -> CMul(CMul(p, z), CSub(C1, z))
    [] op = "spiraljulia" -> CTan(CAdd(CMul(z, z), p))
    [] op = "ngonfractal" -> CDiv(CAdd(CPow(z, Re(q)), Re(p)), z)
    [] op = "barnsleytree" ->
         IF ~FEq(z[1], F(0)) /\ FNear(FAdd(z[1], F(1)), F(1)) THEN CNaN
         ELSE CMul(p, CSub(z, Re(F(FSgn(z[1])))))
    [] op = "multibiomorphphasevariant" -> CAdd(CPow(z, Re(FAdd(q, FAbs(CArg(z))))), p)
    [] op = "multizconjugatebiomorph" -> CAdd(CPow(CConj(z), Re(q)), p)
    [] OTHER ->
         CAdd(CAdd(CASE op = "multisinbiomorph" -> CSin(z) [] op = "multicosbiomorph" -> CCos(z)
                     [] op = "multisinhbiomorph" -> CSinh(z) [] op = "multicoshbiomorph" -> CCosh(z)
                     [] op = "multitanbiomorph" -> CTan(z) [] op = "multitanhbiomorph" -> CTanh(z)
                     [] op = "multiexpbiomorph" -> CExp(z) [] op = "multi2ndtetrationbiomorph" -> CPow(z, z),
                   CPow(z, Re(q))), p)

\* "go" on, "out" after this step, "in" for good, "any"
FTest(op, z) ==
  IF op \in Biomorph THEN
    LET r == FCmp(FAbs(z[1]), F(5))  i == FCmp(FAbs(z[2]), F(5)) IN
    IF r = 0 \/ i = 0 THEN "any" ELSE IF r = 1 /\ i = 1 THEN "out" ELSE IF r = 1 \/ i = 1 THEN "in" ELSE "go"
  ELSE LET r == FCmp(CAbs(z), F(2)) IN IF r = 0 THEN "any" ELSE IF r = 1 THEN "out" ELSE "go"

RECURSIVE Esc(_, _, _, _, _, _, _)
Esc(op, z, p, q, k, i, n) ==
  IF i = n THEN {n}
  ELSE IF op = "ngonfractal" /\ CIs0(z) THEN {i}
  ELSE LET w == TLCEval(FStep(op, z, p, q, k))  t == FTest(op, w) IN
       CASE t = "any" -> {} [] t = "out" -> {i} [] t = "in" -> {n} [] t = "go" -> Esc(op, w, p, q, k, i + 1, n)

\* iterations that add up the imaginary part until it exceeds a limit; err bounds the error made so far
RECURSIVE Sum(_, _, _, _, _, _, _, _)
Sum(op, z, s, err, p, i, lim, n) ==
  IF i = lim THEN {n}
  ELSE LET w == TLCEval(CASE op = "sinjulia" -> CMul(p, CSin(z)) [] op = "cosjulia" -> CMul(p, CCos(z))
                          [] op = "marekdragon" -> CMul(z, CAdd(p, z)) [] op = "tetrationfractal" -> CPow(z, z))
           gain == CASE op = "sinjulia" -> CAbs(CMul(p, CCos(z))) [] op = "cosjulia" -> CAbs(CMul(p, CSin(z)))
                     [] op = "marekdragon" -> CAbs(CAdd(p, CAdd(z, z)))
                     [] op = "tetrationfractal" -> FMul(CAbs(w), FAdd(F(1), FAdd(FAbs(FLog(CAbs(z))), F(4))))
           t == TLCEval(FAdd(s, IF op = "marekdragon" THEN FAbs(w[2]) ELSE w[2]))
           e1 == TLCEval(FAdd(FAdd(FMul(FMax(gain, F(1)), err), FMul(CAbs(w), FDiv(F(1), F(1000000000)))), FMul(FAbs(t), FDiv(F(1), F(1000000000)))))
       IN  IF ~FFin(w[1]) \/ ~FFin(w[2]) \/ ~FFin(t) \/ FNearTol(FAbs(t), F(lim), FMul(F(50), e1)) \/ FLt(F(1), e1) THEN {}
           ELSE IF FLt(F(lim), FAbs(t)) THEN {i % n}
           ELSE Sum(op, w, t, e1, p, i + 1, lim, n)

RECURSIVE Variant(_, _, _, _, _)
Variant(z, p, q, i, n) ==
  IF i = n THEN {n}
  ELSE LET w == TLCEval(CAdd(CPow(z, Re(q)), p))
           r == FCmp(FAbs(w[1]), F(5))  j == FCmp(FAbs(w[2]), F(5))
       IN  IF r = 0 \/ j = 0 THEN {}
           ELSE IF r = 1 \/ j = 1 THEN {v % n : v \in FRoundSet(CAbs(w))}
           ELSE Variant(w, p, q, i + 1, n)

\* exclusive or of integers of any sign
XorI(a, b) ==
  IF a >= 0 /\ b >= 0 THEN a ^^ b
  ELSE IF a < 0 /\ b < 0 THEN (-a - 1) ^^ (-b - 1)
  ELSE IF a < 0 THEN -((-a - 1) ^^ b) - 1 ELSE -(a ^^ (-b - 1)) - 1
\* floor of a/b, for b > 0
FDivI(a, b) == IF a >= 0 THEN a \div b ELSE -((-a + b - 1) \div b)
FModI(a, b) == a - b * FDivI(a, b)

FSq(x) == FMul(x, x)
Count(op, P, Q, p, q, n) ==
  CASE op \in Brot -> Esc(op, C0, p, q, <<P, Q>>, 0, n)
    [] op \in Biomorph \cup {"lambdafractal", "spiraljulia", "ngonfractal", "barnsleytree"} \cup Julia ->
         Esc(op, <<P, Q>>, p, q, C0, 0, n)
    [] op = "multibiomorphvariant" -> Variant(<<P, Q>>, p, q, 0, n)
    [] op \in {"sinjulia", "cosjulia"} -> Sum(op, <<P, Q>>, F(0), F(0), p, 0, 50, n)
    [] op = "marekdragon" -> Sum(op, <<P, Q>>, F(0), F(0), CPolar(F(1), FMul(FMul(F(2), FPi), p)), 0, 65, n)
    [] op = "tetrationfractal" -> Sum(op, <<P, Q>>, F(0), F(0), p, 0, p, n)
    [] op = "multicircle" -> LET v == CAbs(CPow(<<P, Q>>, Re(p))) IN IF ~FFin(v) THEN {} ELSE {i % n : i \in FRoundSet(v)}
    [] op = "multihyperbola" -> {v % n : v \in FRoundSet(CAbs(CSub(CPowR(P, p), CPowR(Q, p))))}
    [] op = "astroidfractal" ->
         LET r == FSq(p)  s == FSub(FAdd(FSq(P), FSq(Q)), r)
         IN  {v % n : v \in FRoundSet(FAbs(FAdd(FMul(s, FSq(s)), FMul(F(27), FMul(FSq(P), FMul(FSq(Q), r))))))}
    [] op = "lemniscatefractal" ->
         {v % n : v \in FTruncSet(FAbs(FSub(FSq(FAdd(FSq(P), FSq(Q))), FMul(FMul(F(2), FSq(p)), FSub(FSq(P), FSq(Q))))))}
    [] op = "xorfractal" -> {FModI(XorI(x, y), p) % n : x \in FTruncSet(P), y \in FTruncSet(Q)}
    [] op = "xordivfractal" -> {FModI(FDivI(XorI(x, y), p), n) : x \in FTruncSet(P), y \in FTruncSet(Q)}

\* the colour of number c
Rat(q) == FDiv(F(q[1]), F(q[2]))
MixSet(lum, f) ==   \* int(f * lum) per channel, lum a double
  LET S(i) == FTruncSet(FMul(Rat(f[i]), lum)) IN {Pack(r, g, b) : r \in S(1), g \in S(2), b \in S(3)}
FracColor(b, c, f) ==
  CASE b = 24 -> MixSet(F(((255 - c) * 20) % 256), f)
    [] b = 8 /\ Len(f) = 3 -> {c % 256}
    [] b = 4 /\ Len(f) = 3 -> {c % 16}
    [] b = 1 -> {c % 2}
    [] OTHER -> {(NColors(b) - 1 - c) % NColors(b)}

\* the super ellipse has numbers that are no integers
SuperColor(b, P, Q, p, f, n) ==
  LET v == FMod(CAbs(CAdd(CPowR(P, p), CPowR(Q, p))), F(n))
      l == FMod(FMul(FSub(F(255), v), F(20)), F(256))
      near(x, m) == FNear(x, F(0)) \/ FNear(x, F(m))
  IN  IF near(v, n) \/ FNearTol(l, F(0), FDiv(F(1), F(1000000))) \/ FNearTol(l, F(256), FDiv(F(1), F(1000000))) THEN {}
      ELSE IF b = 24 THEN MixSet(l, f)
      ELSE UNION {FracColor(b, c, f) : c \in FTruncSet(v)}

\* Newton's method: z^m - z^j (and - 1 if o = 1) = 0; the result is <<"any">>, <<"none">> or <<"root", z, steps>>
CInt(z, k) == CPow(z, Re(F(k)))
RECURSIVE Newton(_, _, _, _)
Newton(z, h, i, n) ==
  IF i = n THEN <<"none">>
  ELSE LET m == h[1]  j == h[2]
           f == CSub(CSub(CInt(z, m), CInt(z, j)), Re(F(h[3])))
           g == CSub(CScale(CInt(z, m - 1), F(m)), IF j = 0 THEN C0 ELSE CScale(CInt(z, j - 1), F(j)))
           dx == CDiv(f, g)
           t == FMul(CAbs(dx), F(100000000))
       IN  IF CIs0(g) THEN <<"none">>
           ELSE IF FLt(CAbs(g), FDiv(F(1), F(1000000))) /\ ~FLt(CAbs(z), FDiv(F(1), F(100))) THEN <<"any">>
           ELSE IF ~FFin(t) \/ (FLt(FR(9, 10), t) /\ FLt(t, FR(11, 10))) THEN <<"any">>
           ELSE IF FLt(t, F(1)) THEN <<"root", z, i>>
           ELSE Newton(TLCEval(CSub(z, dx)), h, i + 1, n)

\* the point of the plane that belongs to column or row i of n
Axis(max, min, n, i) == FAdd(min, FMul(F(i), FDiv(FSub(max, min), F(n))))

FracPaint(op, im, O, x1, y1, x2, y2, p, q, dom, f, n) ==
  LET w == x2 - x1  h == y2 - y1
      PX == TLCEval([x \in x1 .. x2 - 1 |-> Axis(dom[1], dom[2], w, x - x1)])
      QY == TLCEval([y \in y1 .. y2 - 1 |-> Axis(dom[3], dom[4], h, y - y1)])
      ObsF(x, y) == IF O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px) THEN At(O, x, y) ELSE -1
      Choose(x, y, S) == IF S = {} THEN ObsF(x, y) ELSE IF ObsF(x, y) \in S THEN ObsF(x, y) ELSE Min(S)
      Col(x, y) ==
        IF op = "multisuperellipse" THEN SuperColor(im.b, PX[x], QY[y], p, f, n)
        ELSE UNION {FracColor(im.b, c, f) : c \in Count(op, PX[x], QY[y], p, q, n)}
  IN  Mk(im, LAMBDA x, y : IF x >= x1 /\ x < x2 /\ y >= y1 /\ y < y2 THEN Choose(x, y, TLCEval(Col(x, y))) ELSE At(im, x, y))

\* Newton fractals: colours go by the order in which roots turn up, row by row
NewtPaint(im, O, x1, y1, x2, y2, p, dom, fl, n) ==
  LET w == x2 - x1  h == y2 - y1
      PX == TLCEval([x \in x1 .. x2 - 1 |-> Axis(dom[1], dom[2], w, x - x1)])
      QY == TLCEval([y \in y1 .. y2 - 1 |-> Axis(dom[3], dom[4], h, y - y1)])
      ObsF(i) == IF O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px) THEN O.px[i] ELSE -1
      near(u, v) == FLt(CAbs(CSub(u, v)), FR(1, 100))
      st == FoldLeft(LAMBDA a, k :
              LET x == x1 + ((k - 1) % w)  y == y1 + ((k - 1) \div w)
                  r == TLCEval(Newton(<<PX[x], QY[y]>>, p, 0, n))
                  i == Idx(im, x, y)
                  J == {j \in 1 .. Len(a.roots) : near(a.roots[j], r[2])}
              IN  IF ~a.ok \/ r[1] = "any" THEN [a EXCEPT !.ok = FALSE, !.free = @ \cup {i}]
                  ELSE IF r[1] = "none" THEN a
                  ELSE LET R == IF J = {} THEN Append(a.roots, r[2]) ELSE a.roots
                           j == IF J = {} THEN Len(R) ELSE Min(J)
                           S == IF im.b = 24 THEN MixSet(F(((255 - r[3]) * 20) % 256), fl[j])
                                ELSE {NColors(im.b) - 1 - (r[3] % NColors(im.b))}
                       IN  TLCEval([a EXCEPT !.roots = R, !.px = Append(@, <<i, IF ObsF(i) \in S THEN ObsF(i) ELSE Min(S)>>)]),
              [ok |-> TRUE, roots |-> <<>>, px |-> <<>>, free |-> {}], [k \in 1 .. w * h |-> k])
      V == [i \in {st.px[k][1] : k \in 1 .. Len(st.px)} |-> LET k == CHOOSE k \in 1 .. Len(st.px) : st.px[k][1] = i IN st.px[k][2]]
  IN  [im EXCEPT !.px = TLCEval([i \in 1 .. Len(im.px) |-> IF i \in st.free THEN ObsF(i) ELSE IF i \in DOMAIN V THEN V[i] ELSE im.px[i]])]

FracAny(op, im, O, x1, y1, x2, y2, p, q, dom, f, n) ==
  LET X1 == Min2(x1, x2)  X2 == Max2(x1, x2)  Y1 == Min2(y1, y2)  Y2 == Max2(y1, y2) IN
  IF op = "newtonsfractal" THEN NewtPaint(im, O, X1, Y1, X2, Y2, p, dom, f, n)
  ELSE FracPaint(op, im, O, X1, Y1, X2, Y2, p, q, dom, f, n)

\* in memory: <<x1, y1, x2, y2, p, q, domain, factors, n>>;  to a file: <<w, h, bits, p, q, domain, factors, n>>
FracEff(e, im, O, D, alt) ==
  LET a == e.a IN
  IF e.op \in FracMem
  THEN [InPlace(FracAny(e.op, im, O, a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])) EXCEPT !.ret = AnyRet]
  ELSE LET B == Blank(a[1], a[2], a[3])
           P == IF a[3] = 24 \/ FracFile[e.op] = "newtonsfractal" THEN B
                ELSE IF Len(a[7]) = 3 THEN MonoPal(B, PalObs(B, D), a[7], LAMBDA i : InvLevel(B.b, i, 20, 0))
                ELSE DiPal(B, a[7][1], a[7][2])
       IN  [Eff0(im) EXCEPT !.d = FracAny(FracFile[e.op], P, D, 0, 0, a[1], a[2], a[4], a[5], a[6], a[7], a[8]), !.ret = AnyRet]
=============================================================================
