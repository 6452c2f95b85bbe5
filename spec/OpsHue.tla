------------------------------- MODULE OpsHue -------------------------------
(***************************************************************************)
(* Colours: their parts, mixtures, adjustments, palettes and tables. As in *)
(* OpsMath all numbers of an event are doubles.                            *)
(***************************************************************************)
EXTENDS OpsMath

EqI(x, n) == FEq(x, F(n))
EqIV(U, V) == Len(U) = Len(V) /\ \A i \in 1 .. Len(V) : EqI(U[i], V[i])
\* U[i] is one of the whole numbers S[i]
AmongV(U, S) == Len(U) = Len(S) /\ \A i \in 1 .. Len(S) : Whole(U[i], S[i])
IntPack(u) == Pack(FRound(u[1]), FRound(u[2]), FRound(u[3]))
Parts(n) == <<R8(n), G8(n), B8(n)>>
Backward(s) == [i \in 1 .. Len(s) |-> s[Len(s) + 1 - i]]
Top(u) == LET m == Max({FRound(u[i]) : i \in 1 .. Len(u)}) IN IF m = 0 THEN 1 ELSE m
Clip255(S) == {Clamp(n, 0, 255) : n \in S}
BitAt(n, b) == (n \div (2 ^ b)) % 2

(* ---- palettes ------------------------------------------------------------ *)
Levels(b) == CASE b = 1 -> <<0, 255>> [] b = 4 -> [i \in 1 .. 16 |-> 17 * (i - 1)] [] b = 8 -> [i \in 1 .. 256 |-> i - 1]
Tint(f, l) == [i \in 1 .. 3 |-> FRoundSet(FMul(f[i], F(l)))]
\* the levels of a depth, each times m plus s around 256
Shifted(b, m, s, inv) ==
  LET L == Levels(b) IN TLCEval([i \in 1 .. Len(L) |-> (((IF inv THEN 255 - L[i] ELSE L[i]) * m) + s) % 256])
PalOK(r, f, L, turn, tail) ==
  Len(r) = Len(L) /\ \A i \in 1 .. Len(L) : LET t == Tint(f, L[i]) IN AmongV(r[i], (IF turn THEN Backward(t) ELSE t) \o tail)
\* from colour c to d in n steps, entry i at place (n - i) m + s around n
TwoColours(c, d, n, m, s) ==
  LET U == Parts(c) V == Parts(d)
      step(i) == [k \in 1 .. 3 |-> FRoundSet(Lerp(F(U[k]), F(V[k]), FR(i, n)))]
  IN  FoldLeft(LAMBDA v, i : [v EXCEPT ![1 + ((((n - i) * m) + s) % n)] = step(i)],
               [j \in 1 .. n |-> [k \in 1 .. 3 |-> {U[k]}]], [i \in 1 .. n |-> i - 1])

(* ---- hue, saturation, luminosity ------------------------------------------ *)
NearSet(n, d) == {(2 * n + d) \div (2 * d), (2 * n + d - 1) \div (2 * d)}
HSL(r, g, b) ==
  LET hi == Max({r, g, b}) lo == Min({r, g, b}) c == hi - lo s == hi + lo
      q == 255 - Abs(s - 255)
  IN  <<IF c = 0 THEN {0}
        ELSE IF hi = r THEN NearSet((60 * (g - b)) + (IF g < b THEN 360 * c ELSE 0), c)
        ELSE IF hi = g THEN NearSet((60 * (b - r)) + (120 * c), c)
        ELSE NearSet((60 * (r - g)) + (240 * c), c),
        IF c = 0 THEN {0} ELSE NearSet(100 * c, q),
        NearSet(100 * s, 510)>>

(* ---- adjustments of one colour -------------------------------------------- *)
\* the colour u with the brightest part t instead of its own
ScaledTo(u, t) == [i \in 1 .. 3 |-> FRoundSet(FMul(FDiv(u[i], F(Top(u))), t))]
GammaTop(l, g) == FTruncSet(FMul(FPow(FR(l, 255), g), F(255)))
Limits(p) == LET a == Clamp(FRound(p[1]), 0, 255) b == Clamp(FRound(p[2]), 0, 255) IN <<Min2(a, b), Max2(a, b)>>
Pixel(U, k) == <<U[3 * k - 2], U[3 * k - 1], U[3 * k]>>
PerPixel(r, U, ok(_, _)) == Len(r) = Len(U) /\ \A k \in 1 .. Len(U) \div 3 : ok(Pixel(r, k), Pixel(U, k))
Cut(u, t) == [i \in 1 .. 3 |-> FTruncSet(FMul(u[i], FDiv(F(t), F(Top(u)))))]
CutTo(u, p) == LET m == Max({FRound(u[i]) : i \in 1 .. 3}) IN IF m = 0 THEN u ELSE IF m < p[1] THEN Cut(u, p[1]) ELSE IF m > p[2] THEN Cut(u, p[2]) ELSE u

LumRanges == <<<<255, 0>>, <<0, 255>>, <<192, 64>>, <<64, 192>>, <<255, 128>>, <<128, 255>>, <<128, 0>>, <<0, 128>>>>

HueFns == {"isvalidcolorbit", "getdefaultbitpal", "getdefaultlumrange", "colormix", "int2RGB", "int2RGBlist", "int2RGBarr", "int2BGRarr", "RGB2BGRarr",
  "RGBfactors2RGB", "RGB2int", "matchRGBtodefault4bitpal", "matchRGBtopal", "RGBtoRGBfactorsandlum", "probplotRGBto1bit", "probplotRGBto4bitpal",
  "monochromepal", "monoshiftablepal", "monoinverseshiftablepal", "monoinverseshiftableBGRpal", "monoinverseshiftableBGRApal", "monochrome",
  "gammacorrectbyte", "gammacorrect", "brightnessadjust", "thresholdadjust", "colorfilter", "monochromefiltertoBGRbuf", "applymonochromefiltertoBGRbuf",
  "gammaBGRbuf", "applygammaBGRbuf", "applybrightnessadjtoBGRbuf", "applythresholdadjtoBGRbuf", "RGBfactorstoBaseandRange", "RGB2HSL", "dichromaticpal",
  "interpolateRGB", "huenames"}

HueOK(op, a, r) ==
  CASE op = "isvalidcolorbit" -> EqI(r, IF \E b \in {1, 4, 8, 24} : EqI(a[1], b) THEN 1 ELSE 0)
    [] op = "getdefaultbitpal" -> LET P == DefaultPal(FRound(a[1])) IN Len(r) = Len(P) /\ \A i \in 1 .. Len(P) : EqIV(r[i], Parts(P[i]))
    [] op = "getdefaultlumrange" -> Len(r) = 8 /\ \A i \in 1 .. 8 : EqIV(r[i], LumRanges[i])
    [] op = "colormix" -> Whole(r, {Pack(x, y, z) : x \in FTruncSet(FMul(a[1], a[2][1])), y \in FTruncSet(FMul(a[1], a[2][2])), z \in FTruncSet(FMul(a[1], a[2][3]))})
    [] op \in {"int2RGB", "int2RGBlist", "int2RGBarr"} -> EqIV(r, Parts(FRound(a[1])))
    [] op = "int2BGRarr" -> EqIV(r, Backward(Parts(FRound(a[1]))))
    [] op = "RGB2BGRarr" -> Len(r) = 3 /\ \A i \in 1 .. 3 : FEq(r[i], a[4 - i])
    [] op = "RGBfactors2RGB" -> AmongV(r, [i \in 1 .. 3 |-> FRoundSet(FMul(a[1][i], a[2]))])
    [] op = "RGB2int" -> EqI(r, IntPack(a))
    [] op = "matchRGBtodefault4bitpal" ->
         LET q == [i \in 1 .. 3 |-> FRound(a[1][i]) \div 64] on(i) == IF q[i] > 0 THEN 1 ELSE 0
         IN  EqI(r, (IF \E i \in 1 .. 3 : q[i] > 1 THEN 8 ELSE 0) + (4 * on(1)) + (2 * on(2)) + on(3))
    [] op = "matchRGBtopal" -> EqI(r, Nearest([i \in 1 .. Len(a[2]) |-> IntPack(a[2][i])], IntPack(a[1])))
    [] op = "RGBtoRGBfactorsandlum" -> Len(r) = 2 /\ EqI(r[2], Top(a[1])) /\ NrV(r[1], [i \in 1 .. 3 |-> FDiv(a[1][i], F(Top(a[1])))])
    [] op = "probplotRGBto1bit" -> Whole(r, 0 .. Max(FRoundSet(FDiv(FMul(a[2], VSum(a[1])), F(768)))))
    [] op = "probplotRGBto4bitpal" ->
         LET n == FRound(r) may(i) == FRound(a[1][i]) > 128 IN
         /\ EqI(r, n) /\ n \in 0 .. 15
         /\ BitAt(n, 3) = (IF \E i \in 1 .. 3 : FRound(a[1][i]) > 127 THEN 1 ELSE 0)
         /\ \A i \in 1 .. 3 : BitAt(n, 3 - i) = 1 => may(i)
    [] op = "monochromepal" -> PalOK(r, a[2], Levels(FRound(a[1])), FALSE, <<>>)
    [] op = "monoshiftablepal" -> PalOK(r, a[2], Shifted(FRound(a[1]), FRound(a[3]), FRound(a[4]), FALSE), FALSE, <<>>)
    [] op = "monoinverseshiftablepal" -> PalOK(r, a[2], Shifted(FRound(a[1]), FRound(a[3]), FRound(a[4]), TRUE), FALSE, <<>>)
    [] op = "monoinverseshiftableBGRpal" -> PalOK(r, a[2], Shifted(FRound(a[1]), FRound(a[3]), FRound(a[4]), TRUE), TRUE, <<>>)
    [] op = "monoinverseshiftableBGRApal" -> PalOK(r, a[2], Shifted(FRound(a[1]), FRound(a[3]), FRound(a[4]), TRUE), TRUE, <<{0}>>)
    [] op = "monochrome" -> Len(r) = 3 /\ Whole(r[1], FRoundSet(VMean(a[1]))) /\ FEq(r[1], r[2]) /\ FEq(r[1], r[3])
    [] op = "gammacorrectbyte" -> Whole(r, GammaTop(FRound(a[1]), a[2]))
    [] op = "gammacorrect" -> \E t \in GammaTop(Top(a[1]), a[2]) : AmongV(r, [i \in 1 .. 3 |-> Clip255(ScaledTo(a[1], F(t))[i])])
    [] op = "brightnessadjust" -> LET t == FMul(F(Top(a[1])), FAdd(F1, FDiv(a[2], F(100)))) IN AmongV(r, [i \in 1 .. 3 |-> Clip255(ScaledTo(a[1], t)[i])])
    [] op = "thresholdadjust" -> LET p == Limits(a[2]) IN AmongV(r, ScaledTo(a[1], F(Clamp(Top(a[1]), p[1], p[2]))))
    [] op = "colorfilter" -> AmongV(r, [i \in 1 .. 3 |-> Clip255(FRoundSet(FMul(a[1][i], a[2][i])))])
    [] op \in {"monochromefiltertoBGRbuf", "applymonochromefiltertoBGRbuf"} ->
         PerPixel(r, a[1], LAMBDA x, u : \A i \in 1 .. 3 : EqI(x[i], FRound(VSum(u)) \div 3))
    [] op \in {"gammaBGRbuf", "applygammaBGRbuf"} -> PerPixel(r, a[1], LAMBDA x, u : \E t \in GammaTop(Top(u), a[2]) : AmongV(x, Cut(u, t)))
    [] op = "applybrightnessadjtoBGRbuf" -> AmongV(r, [i \in 1 .. Len(a[1]) |-> Clip255(FRoundSet(FMul(a[1][i], FAdd(F1, FDiv(a[2], F(100))))))])
    [] op = "applythresholdadjtoBGRbuf" ->
         LET p == Limits(a[2]) IN
         PerPixel(r, a[1], LAMBDA x, u : LET m == Max({FRound(u[i]) : i \in 1 .. 3}) t == Clamp(m, p[1], p[2])
                                         IN  IF m = 0 \/ t = m THEN x = u ELSE AmongV(x, Cut(u, t)))
    [] op = "RGBfactorstoBaseandRange" ->
         Len(r) = 2 /\ AmongV(r[1], [i \in 1 .. 3 |-> FRoundSet(FMul(a[2][i], a[1][1]))]) /\ NrV(r[2], [i \in 1 .. 3 |-> FSub(FMul(a[2][i], a[1][2]), r[1][i])])
    [] op = "RGB2HSL" -> AmongV(r, HSL(FRound(a[1]), FRound(a[2]), FRound(a[3])))
    [] op = "dichromaticpal" ->
         LET P == TwoColours(FRound(a[1]), FRound(a[2]), FRound(a[3]), FRound(a[4]), FRound(a[5]))
         IN  Len(r) = Len(P) /\ \A i \in 1 .. Len(P) : AmongV(r[i], P[i])
    [] op = "interpolateRGB" ->
         LET k == FRound(a[1]) IN
         AmongV(r, [i \in 1 .. 3 |-> LET p == a[2 * i] q == a[2 * i + 1] IN
                      FRoundSet(IF k = 0 THEN Lerp(p, q, a[8]) ELSE Lerp(p, q, Smooth(k, IF FEq(p, q) THEN F1 ELSE a[8])))])
    \* the three tables of colour names agree: <<rgb, hsl, factors>> of every name
    [] op = "huenames" ->
         /\ \A i \in 1 .. Len(r) : LET c == Parts(FRound(r[i][1][1])) IN
              /\ FLe(F0, r[i][1][1]) /\ FLt(r[i][1][1], F(16777216))
              /\ AmongV(r[i][2], HSL(c[1], c[2], c[3]))
              /\ Len(r[i][3]) = 3 /\ \A k \in 1 .. 3 : FNearTol(r[i][3][k], FR(c[k], 255), FR(1, 1000000))
         /\ Len(r) = FRound(a[2])
HueEff(e, im) == Ret(im, IF HueOK(e.op, e.a, e.ret.v) THEN AnyRet ELSE Wrong)
=============================================================================
