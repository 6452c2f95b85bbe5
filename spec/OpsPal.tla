------------------------------- MODULE OpsPal -------------------------------
(***************************************************************************)
(* Palettes, colour histograms, depth changes, and reading all pixels.     *)
(***************************************************************************)
EXTENDS OpsColor

PalOps == {"getRGBpal", "setRGBpal", "setbmppal", "setbmppalwithBGRlist", "setbmppalwithBGRAlist", "palshift", "itercolorcycle",
  "copyRGBpal", "setBMP2monochrome", "setBMP2invshiftedmonochrome", "setBMP2dichromaticpal", "RGBpalbrightnessadjust",
  "newBMPwithPAL", "setnewpalfromsourcebmp", "makenewpalfromcolorhist", "adjustcolordicttopal", "getBGRpalbuf"}
DepthOps == {"upgradeto24bitimage", "colorhistogram", "iterimageRGB", "iterimagecolor", "getneighborcolorlist",
  "itergetcolorfromrectregion", "reduce24bitimagebits", "setBMPimgbytes"}
PalDepthOps == PalOps \cup DepthOps

WithPal(im, F(_)) == [im EXCEPT !.pal = TLCEval([i \in 1 .. Len(im.pal) |-> F(i)])]
PalSeq(im) == [i \in 1 .. Len(im.pal) |-> RGBSeq(im.pal[i])]
RGBof3(v) == Pack(v[1], v[2], v[3])
Obs3(v) == IF Len(v) = 3 THEN Pack(v[1], v[2], v[3]) ELSE 0

\* grey levels of a monochrome palette
Level(b, i) == CASE b = 1 -> (i - 1) * 255 [] b = 4 -> (i - 1) * 17 [] OTHER -> i - 1
\* levels scaled by rational factors; the observed palette decides between equally near values
MonoPal(im, O, f, L(_)) ==
  WithPal(im, LAMBDA i : LET F(q) == Near(q[1] * L(i), q[2], Pow2(q[2]))
                         IN  Pick3(O.pal[i], F(f[1]), F(f[2]), F(f[3])))
InvLevel(b, i, mult, shift) == ((255 - Level(b, i)) * mult + shift) % 256
\* two colours blended over the palette, every third entry after the other
DiPal(im, c1, c2) ==
  LET n == Len(im.pal)
      Q(i) == CHOOSE j \in 0 .. n - 1 : ((n - j) * 3) % n = i - 1
      F(u, v, j) == RoundDiv(u * (n - j) + v * j, n)
  IN  WithPal(im, LAMBDA i : LET j == Q(i) IN Pack(F(R8(c1), R8(c2), j), F(G8(c1), G8(c2), j), F(B8(c1), B8(c2), j)))
BGRA(im) == [i \in 1 .. Len(im.pal) |-> <<B8(im.pal[i]), G8(im.pal[i]), R8(im.pal[i]), 0>>]
PalObs(im, O) == IF O.w > 0 /\ "pal" \in DOMAIN O /\ Len(O.pal) = Len(im.pal) THEN O ELSE im

Rot(p, k) == LET m == Len(p) IN [i \in 1 .. m |-> p[((i - 1 + k) % m) + 1]]

\* colours by decreasing frequency; of equally frequent ones the greater first
Hist(im) ==
  LET n == Len(im.px)
      C == {im.px[i] : i \in 1 .. n}
      K == TLCEval([c \in C |-> Cardinality({i \in 1 .. n : im.px[i] = c})])
  IN  SetToSortSeq({<<K[c], c>> : c \in C}, LAMBDA p, q : p[1] > q[1] \/ (p[1] = q[1] /\ p[2] > q[2]))
\* the most frequent colours that are at least t apart from each other and from black
PalFrom(hist, n, t) ==
  FoldLeft(LAMBDA P, e : IF Len(P) >= n \/ \E i \in 1 .. Len(P) : Dist2(P[i], e[2]) * t[2] * t[2] < t[1] * t[1]
                         THEN P ELSE Append(P, e[2]), <<0>>, hist)
Fill0(P, n) == [i \in 1 .. n |-> IF i <= Len(P) THEN P[i] ELSE 0]
RGBs(P) == [i \in 1 .. Len(P) |-> RGBSeq(P[i])]

Scan(im, F(_)) ==
  [i \in 1 .. im.w * im.h |->
     LET x == (i - 1) % im.w  y == im.h - 1 - (i - 1) \div im.w IN <<<<x, y>>, F(At(im, x, y))>>]
Upgrade(im) ==
  [Blank(im.w, im.h, 24) EXCEPT !.px = TLCEval([i \in 1 .. im.w * im.h |-> im.pal[im.px[i] + 1]])]
\* depth reduction: every pixel becomes the nearest entry of the new palette
Quant(im, bits, P) ==
  LET C == {im.px[i] : i \in 1 .. Len(im.px)}
      T == TLCEval([c \in C |-> Nearest(P, c)])
      B == Blank(im.w, im.h, bits)
  IN  [B EXCEPT !.pal = Fill0(P, Len(B.pal)), !.px = TLCEval([i \in 1 .. Len(im.px) |-> T[im.px[i]]])]

Sorted(S) == SetToSortSeq(S, LAMBDA p, q : p[2] < q[2] \/ (p[2] = q[2] /\ p[1] < q[1]))

PalEff(e, im, D, OO, DO, alt) ==
  LET a == e.a
      O == PalObs(im, OO)
  IN
  CASE e.op = "getRGBpal" -> Ret(im, RSeq(RGBSeq(im.pal[a[1] + 1])))
    [] e.op = "setRGBpal" -> InPlace([im EXCEPT !.pal[a[1] + 1] = Pack(a[2], a[3], a[4])])
    [] e.op = "setbmppal" ->
         InPlace(IF Len(a[1]) # Len(im.pal) THEN im ELSE WithPal(im, LAMBDA i : RGBof3(a[1][i])))
    [] e.op \in {"setbmppalwithBGRlist", "setbmppalwithBGRAlist"} ->
         InPlace(IF Len(a[1]) # Len(im.pal) THEN im ELSE WithPal(im, LAMBDA i : Pack(a[1][i][3], a[1][i][2], a[1][i][1])))
    [] e.op = "getBGRpalbuf" ->
         Ret(im, RSeq(FlattenSeq([i \in 1 .. Len(im.pal) |-> <<B8(im.pal[i]), G8(im.pal[i]), R8(im.pal[i]), 0>>])))
    [] e.op = "palshift" -> G48(im, InPlace([im EXCEPT !.pal = Rot(im.pal, Abs(a[1]))]))
    \* the palettes of all steps of the cycle; the bitmap itself is changed
    [] e.op = "itercolorcycle" ->
         G48(im, [InPlace([im EXCEPT !.pal = Rot(im.pal, Len(im.pal) - 1)])
                    EXCEPT !.ret = RSeq([k \in 1 .. Len(im.pal) |-> Rot(im.pal, k - 1)])])
    [] e.op = "copyRGBpal" -> [Eff0(im) EXCEPT !.d = [D EXCEPT !.pal = im.pal]]
    [] e.op = "setBMP2monochrome" ->
         LET m == MonoPal(im, O, a[1], LAMBDA i : Level(im.b, i)) IN [InPlace(m) EXCEPT !.ret = RSeq(PalSeq(m))]
    [] e.op = "setBMP2invshiftedmonochrome" ->
         LET m == MonoPal(im, O, a[1], LAMBDA i : InvLevel(im.b, i, a[2], a[3])) IN [InPlace(m) EXCEPT !.ret = RSeq(BGRA(m))]
    [] e.op = "setBMP2dichromaticpal" -> LET m == DiPal(im, a[1], a[2]) IN [InPlace(m) EXCEPT !.ret = RSeq(BGRA(m))]
    [] e.op = "newBMPwithPAL" ->
         LET B == Blank(a[1], a[2], a[3])
         IN  New(im, IF a[3] = 24 THEN B
                     ELSE IF Len(a[4]) = 3 THEN MonoPal(B, PalObs(B, DO), a[4], LAMBDA i : InvLevel(B.b, i, 20, 0))
                     ELSE DiPal(B, a[4][1], a[4][2]))
    [] e.op = "RGBpalbrightnessadjust" ->
         Ret(im, RSeq([i \in 1 .. Len(im.pal) |->
           RGBSeq(BrightX(im.pal[i], a[1][1], a[1][2], IF Len(e.ret.v) = Len(im.pal) THEN Obs3(e.ret.v[i]) ELSE 0, FALSE))]))
    [] e.op = "makenewpalfromcolorhist" -> Ret(im, RSeq(RGBs(PalFrom(a[1], a[2], a[3]))))
    \* source slot s, changed bitmap d
    [] e.op = "setnewpalfromsourcebmp" ->
         LET P == PalFrom(Hist(im), Len(D.pal), a[1])
         IN  [Eff0(im) EXCEPT !.d = [D EXCEPT !.pal = Fill0(P, Len(D.pal))], !.ret = RSeq(RGBs(P))]
    [] e.op = "adjustcolordicttopal" ->
         Ret(im, RSeq([i \in 1 .. Len(a[1]) |-> IF im.b = 24 THEN a[1][i] ELSE Nearest(im.pal, a[1][i])]))
    [] e.op = "upgradeto24bitimage" -> IF im.b = 24 THEN [Reject(im, M_is24) EXCEPT !.ret = RImg] ELSE New(im, Upgrade(im))
    [] e.op = "colorhistogram" -> Ret(im, RSeq(Hist(im)))
    [] e.op = "iterimageRGB" -> Ret(im, RSeq(Scan(im, LAMBDA v : RGBSeq(RGBof(im, v)))))
    [] e.op = "iterimagecolor" -> Ret(im, RSeq(Scan(im, LAMBDA v : v)))
    \* sorted, as a set of positions has no order
    [] e.op = "getneighborcolorlist" ->
         Ret(im, RSeq(LET N == {p \in (a[1][1] - 1 .. a[1][1] + 1) \X (a[1][2] - 1 .. a[1][2] + 1) : InB(im, p[1], p[2])}
                          Q == [p \in N |-> RGBof(im, At(im, p[1], p[2]))]
                      IN  SortSeq([i \in 1 .. Cardinality(N) |-> Q[Sorted(N)[i]]], <)))
    [] e.op = "itergetcolorfromrectregion" ->
         GRect(im, a, 1, Ret(im, RSeq(LET xa == Min2(a[1], a[3])  ya == Min2(a[2], a[4])
                                          w == Abs(a[3] - a[1]) + 1  h == Abs(a[4] - a[2]) + 1
                                      IN  [i \in 1 .. w * h |-> LET x == xa + ((i - 1) % w)  y == ya + ((i - 1) \div w)
                                                                IN  <<<<x, y>>, At(im, x, y)>>])))
    [] e.op = "setBMPimgbytes" -> [Eff0(im) EXCEPT !.d = [D EXCEPT !.px = im.px]]
    [] e.op = "reduce24bitimagebits" ->
         IF im.w = 0 THEN Reject(im, M_nofile)
         ELSE IF im.b # 24 THEN Reject(im, M_24)
         ELSE LET B == Blank(im.w, im.h, a[1])
                  P == IF a[3] = 1 THEN MonoPal(B, PalObs(B, DO), a[4], LAMBDA i : Level(B.b, i)).pal
                       ELSE PalFrom(Hist(im), Len(B.pal), a[2])
              IN  [Eff0(im) EXCEPT !.d = Quant(im, a[1], P)]
=============================================================================
