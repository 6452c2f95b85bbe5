------------------------------ MODULE OpsColor ------------------------------
(***************************************************************************)
(* Colour adjustments and gradients of 24-bit bitmaps and gradient fills.  *)
(* Parameters are rational numbers <<numerator, denominator>>. Where the   *)
(* exact value lies on a rounding boundary, the result of an inexact       *)
(* floating point computation may be either neighbour: such a channel has  *)
(* a set of allowed values and the observed one (image O) has to be in it. *)
(***************************************************************************)
EXTENDS OpsXform, OpsDraw

AdjRegion == {"monofilterto24bitregion", "colorfilterto24bitregion", "brightnesseadjto24bitregion",
              "thresholdadjto24bitregion", "gammaadjto24bitregion"}
AdjWhole == {"monofilterto24bitimage", "colorfilterto24bitimage", "brightnesseadjto24bitimage",
             "thresholdadjto24bitimage", "gammaadjto24bitimage"}
AdjCirc == {"monocircle", "colorfiltercircregion", "brightnessadjcircregion", "thresholdadjcircregion",
            "gammacorrectcircregion"}
BrGrad == {"verticalbrightnessgradto24bitregion", "verticalbrightnessgradto24bitimage",
           "horizontalbrightnessgradto24bitregion", "horizontalbrightnessgradto24bitimage",
           "vertbrightnessgrad2circregion", "horibrightnessgrad2circregion"}
GradFill == {"filledgradrect", "fillbackgroundwithgrad", "filleddichromaticgradrect", "fillbackgroundwithdichromaticgrad"}
GradPen == {"gradthickroundline", "gradthickcircle", "thickencirclearea", "gradcircle", "graddichromiccircle", "sphere",
            "orb", "gradellipse", "gradthickplotpoly", "gradplotlines", "gradvert"}
ColorOps == AdjRegion \cup AdjWhole \cup AdjCirc \cup BrGrad \cup GradFill \cup GradPen

(* ---- rounding -------------------------------------------------------- *)
RECURSIVE Pow2(_)
Pow2(d) == d = 1 \/ (d % 2 = 0 /\ Pow2(d \div 2))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
\* n / m rounded to the nearest integer and limited to a byte; exact: the computation is exact
Near(n, m, exact) ==
  IF n <= 0 THEN {0}
  ELSE IF ~exact /\ 2 * (n % m) = m THEN {Min2(255, n \div m), Min2(255, n \div m + 1)}
  ELSE {Min2(255, RoundDiv(n, m))}
\* n / m rounded down
Trunc(n, m, exact) ==
  LET q == n \div m IN IF ~exact /\ n % m = 0 /\ q > 0 THEN {q - 1, q} ELSE {q}
Pick(o, S) == IF o \in S THEN o ELSE Min(S)
Pick3(o, R, G, B) == Pack(Pick(R8(o), R), Pick(G8(o), G), Pick(B8(o), B))
Obs(im, O) == IF O.w = im.w /\ "px" \in DOMAIN O /\ Len(O.px) = Len(im.px) THEN O ELSE im

(* ---- adjustments of one colour c, o the observed result --------------- *)
Mono(c) == LET m == (R8(c) + G8(c) + B8(c)) \div 3 IN Pack(m, m, m)
Filter(c, f, o) ==
  LET F(v, q) == Near(v * q[1], q[2], Pow2(q[2]))
  IN  Pick3(o, F(R8(c), f[1]), F(G8(c), f[2]), F(B8(c), f[3]))
\* brightness changed by n / d per cent
BrightX(c, n, d, o, X) ==
  LET F(v) == Near(v * (100 * d + n), 100 * d, X)
  IN  Pick3(o, F(R8(c)), F(G8(c)), F(B8(c)))
Bright(c, n, d, o) == BrightX(c, n, d, o, d = 1 /\ n % 25 = 0)
MaxC(c) == Max2(R8(c), Max2(G8(c), B8(c)))
Scale(c, l, m, o) ==
  LET F(v) == Trunc(v * l, m, Pow2(m)) IN Pick3(o, F(R8(c)), F(G8(c)), F(B8(c)))
Thresh(c, lr, o) ==
  LET a == Min2(lr[1] % 256, lr[2] % 256)  b == Max2(lr[1] % 256, lr[2] % 256)  m == MaxC(c)
  IN  IF m = 0 THEN c ELSE IF m < a THEN Scale(c, a, m, o) ELSE IF m > b THEN Scale(c, b, m, o) ELSE c
\* luminosity 255 (m / 255)^g rounded down, one table for each g
Gam2 == [m \in 0 .. 255 |-> {(m * m) \div 255}]
Gam3 == [m \in 0 .. 255 |-> {(m * m * m) \div 65025}]
GamHalf == [m \in 0 .. 255 |-> {Max({k \in 0 .. 255 : k * k <= m * 255})}]
GamLum(m, g) ==
  CASE g = <<1, 1>> -> IF m = 255 THEN {255} ELSE {m, m - 1}
    [] g = <<2, 1>> -> Gam2[m]
    [] g = <<3, 1>> -> Gam3[m]
    [] g = <<1, 2>> -> GamHalf[m]
Gamma(c, g, o) ==
  LET m == Max2(1, MaxC(c))
      L == GamLum(m, g)
      F(v) == UNION {Trunc(v * l, m, Pow2(m)) : l \in L}
  IN  Pick3(o, F(R8(c)), F(G8(c)), F(B8(c)))
Adjust(kind, c, p, o) ==
  CASE kind = 1 -> Mono(c)
    [] kind = 2 -> Filter(c, p, o)
    [] kind = 3 -> Bright(c, p[1], p[2], o)
    [] kind = 4 -> Thresh(c, p, o)
    [] kind = 5 -> Gamma(c, p, o)
Kind(op) ==
  CASE op \in {"monofilterto24bitregion", "monofilterto24bitimage", "monocircle"} -> 1
    [] op \in {"colorfilterto24bitregion", "colorfilterto24bitimage", "colorfiltercircregion"} -> 2
    [] op \in {"brightnesseadjto24bitregion", "brightnesseadjto24bitimage", "brightnessadjcircregion"} -> 3
    [] op \in {"thresholdadjto24bitregion", "thresholdadjto24bitimage", "thresholdadjcircregion"} -> 4
    [] OTHER -> 5

\* alt is the behaviour of a recorded finding: a colour filter leaves the last
\* pixel of every row of the region alone
AdjRect(im, O, kind, p, x1, y1, x2, y2, alt) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2) - (IF alt /\ kind = 2 THEN 1 ELSE 0)
      ya == Min2(y1, y2)  yb == Max2(y1, y2)
  IN  Mk(im, LAMBDA x, y : IF x < xa \/ x > xb \/ y < ya \/ y > yb THEN At(im, x, y)
                           ELSE Adjust(kind, At(im, x, y), p, At(O, x, y)))
AdjDisc(im, O, kind, p, a, alt) ==
  LET H == HalfW(a[3])
      k2 == alt /\ kind = 2
  IN  Mk(im, LAMBDA x, y : IF InDisc(im, H, a, x, y, alt)
                              /\ (k2 => x < Min2(a[1] + H[Abs(y - a[2])], im.w - 1) - 1)
                           THEN Adjust(kind, At(im, x, y), p, At(O, x, y)) ELSE At(im, x, y))

\* brightness changed by a percentage that goes from l[1] to l[2] in n steps; step k
Grad(c, l, k, n, o) ==
  IF (l[2] - l[1]) % n = 0 THEN Bright(c, l[1] + k * ((l[2] - l[1]) \div n), 1, o)
  ELSE Bright(c, l[1] * n + k * (l[2] - l[1]), n, o)
\* from top to bottom
VGrad(im, O, x1, y1, x2, y2, l) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2)  yb == Max2(y1, y2)
  IN  Mk(im, LAMBDA x, y : IF x < xa \/ x > xb \/ y < ya \/ y > yb THEN At(im, x, y)
                           ELSE Grad(At(im, x, y), <<l[2], l[1]>>, yb - y, Max2(yb - ya, 1), At(O, x, y)))
\* from left to right; alt: a recorded finding leaves the top row of the region alone
HGrad(im, O, x1, y1, x2, y2, l, alt) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2) + (IF alt THEN 1 ELSE 0)  yb == Max2(y1, y2)
  IN  Mk(im, LAMBDA x, y : IF x < xa \/ x > xb \/ y < ya \/ y > yb THEN At(im, x, y)
                           ELSE Grad(At(im, x, y), l, x - xa, Max2(xb - xa, 1), At(O, x, y)))
VGradC(im, O, a, alt) ==
  LET H == HalfW(a[3])
  IN  Mk(im, LAMBDA x, y : IF InDisc(im, H, a, x, y, alt)
                           THEN Grad(At(im, x, y), a[4], y - (a[2] - a[3]), 2 * a[3], At(O, x, y)) ELSE At(im, x, y))
HGradC(im, O, a, alt) ==
  LET V == VHalf(a[3], alt)
  IN  Mk(im, LAMBDA x, y : IF Abs(x - a[1]) <= a[3] /\ Abs(y - a[2]) <= V[Abs(x - a[1])]
                           THEN Grad(At(im, x, y), a[4], x - (a[1] - a[3]), 2 * a[3], At(O, x, y)) ELSE At(im, x, y))

(* ---- gradient fills ---------------------------------------------------- *)
\* palette entries (or colours) that a set of colours becomes
Map(im, C) == IF im.b = 24 THEN C ELSE {Nearest(im.pal, c) : c \in C}
Packs(R, G, B) == {Pack(t[1], t[2], t[3]) : t \in R \X G \X B}
\* between the colours of two luminosities, position k of n; the factors are rationals.
\* alt is a recorded finding: positions count from the edge of the bitmap
LumMix(f, l, k, n) ==
  LET F(q) == Near(q[1] * (l[1] * (n - k) + l[2] * k), q[2] * n, Pow2(q[2]) /\ Pow2(n \div Gcd(n, k)))
  IN  Packs(F(f[1]), F(f[2]), F(f[3]))
DiMix(c1, c2, k, n) ==
  LET F(u, v) == Near(u * (n - k) + v * k, n, Pow2(n \div Gcd(n, k)))
  IN  Packs(F(R8(c1), R8(c2)), F(G8(c1), G8(c2)), F(B8(c1), B8(c2)))
\* every column (direction 0) or row has one colour of the set C(position, length)
GradRect(im, O, x1, y1, x2, y2, dir, C(_, _), alt) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2)  yb == Max2(y1, y2)
      n == IF dir = 0 THEN xb - xa + 1 ELSE yb - ya + 1
      P(i) == IF ~alt THEN i ELSE Min2(n, i + (IF dir = 0 THEN xa ELSE ya))
      V == TLCEval([i \in 0 .. n - 1 |->
             LET S == Map(im, C(P(i), n))
                 o == IF dir = 0 THEN At(O, xa + i, ya) ELSE At(O, xa, ya + i)
             IN  IF o \in S THEN o ELSE Min(S)])
  IN  Mk(im, LAMBDA x, y : IF x < xa \/ x > xb \/ y < ya \/ y > yb THEN At(im, x, y)
                           ELSE V[IF dir = 0 THEN x - xa ELSE y - ya])

(* ---- layers: figures painted one over the other ------------------------ *)
\* L is a sequence of [S |-> points, C |-> allowed colours]; within the visible
\* part of a layer all pixels have the same colour
Layers(im, O, L) ==
  LET n == Len(L)
      P == TLCEval([i \in 1 .. n |-> {p[2] * im.w + p[1] + 1 : p \in {q \in L[i].S : InB(im, q[1], q[2])}}])
      F(acc, j) ==
        LET i == n + 1 - j
            V == TLCEval(P[i] \ acc.done)
            C == {NormC(im.b, c) : c \in Map(im, L[i].C)}
            o == IF V = {} THEN 0 ELSE O.px[CHOOSE v \in V : TRUE]
            c == IF o \in C THEN o ELSE Min(C)
        IN  [done |-> acc.done \cup V, px |-> TLCEval([v \in 1 .. Len(acc.px) |-> IF v \in V THEN c ELSE acc.px[v]])]
      R == FoldLeft(F, [done |-> {}, px |-> im.px], [j \in 1 .. n |-> j])
  IN  [im EXCEPT !.px = R.px]
\* colour of a luminosity in the set L
ColorOf(f, L) ==
  UNION {LET F(q) == {v \in Trunc(q[1] * l, q[2], Pow2(q[2])) : v >= 0} IN Packs(F(f[1]), F(f[2]), F(f[3])) : l \in L}
\* luminosity at step i of n between l[1] and l[2], rounded down
LumAt(l, i, n) == Trunc(l[1] * (n - i) + l[2] * i, n, Pow2(n \div Gcd(n, i)))
LumAtX(l, i, n) == Trunc(l[1] * (n - i) + l[2] * i, n, TRUE)
\* the same without rounding before the factors are applied
ColorAt(f, l, i, n) ==
  LET F(q) == Trunc(q[1] * (l[1] * (n - i) + l[2] * i), q[2] * n, Pow2(q[2]) /\ Pow2(n \div Gcd(n, i)))
  IN  Packs(F(f[1]), F(f[2]), F(f[3]))
Down(n, m, F(_)) == [j \in 1 .. Max2(0, n - m + 1) |-> F(n + 1 - j)]
Ring(im, a, i, pen, alt) == DiscsSet(im, CircSet(a[1], a[2], i), pen, alt)

PenEff(e, im, O, alt) ==
  LET a == e.a
      Lay(C, S) == [S |-> S, C |-> C]
      RingsOf(l, f) == Down(a[3] - 1, 1, LAMBDA i : Lay(ColorOf(f, LumAt(l, i, a[3])), Ring(im, a, i, 2, alt)))
      RingsDi(c, d) == Down(a[3] - 1, 1, LAMBDA i : Lay(DiMix(c, d, i, a[3]), Ring(im, a, i, 2, alt)))
      Out(L) == InPlace(Layers(im, O, L))
      ThickC(pen, l, f) == Out(Down(pen, 1, LAMBDA i : Lay(ColorOf(f, LumAtX(l, i, pen)), Ring(im, a, a[3], i, alt))))
  IN
  CASE e.op = "gradthickroundline" ->
         Out(Down(a[3], 1, LAMBDA i : Lay(ColorOf(a[5], LumAtX(a[4], i, a[3])), DiscsSet(im, LineSet(a[1], a[2]), i, alt))))
    [] e.op = "gradthickcircle" -> ThickC(a[4], a[5], a[6])
    [] e.op = "thickencirclearea" -> ThickC(8, <<255, 0>>, a[4])
    [] e.op = "gradcircle" -> Out(RingsOf(a[4], a[5]))
    [] e.op = "graddichromiccircle" -> G24(im, Out(RingsDi(a[4], a[5])))
    [] e.op = "sphere" ->
         IF Len(a[4]) = 3 THEN Out(RingsOf(<<255, 0>>, a[4])) ELSE G24(im, Out(RingsDi(a[4][1], a[4][2])))
    [] e.op = "orb" ->
         LET j == a[3] \div 2
         IN  Out(<<Lay(ColorOf(a[4], {255}), DiscSet(im, a[1], a[2], j, alt))>>
                 \o Down(a[3] - 1, j + 1, LAMBDA i : Lay(ColorOf(a[4], {(255 * (a[3] - i)) \div j}), Ring(im, a, i, 2, alt))))
    [] e.op = "gradellipse" ->
         LET r == Max2(a[3], a[4])
         IN  Out(Down(r, 1, LAMBDA i : Lay(ColorOf(a[6], LumAt(a[5], i, r)),
                IF a[3] - r + i < 0 \/ a[4] - r + i < 0 THEN {} ELSE EllDisc(im, a[1], a[2], a[3] - r + i, a[4] - r + i, alt))))
    [] e.op = "gradthickplotpoly" ->
         Out(Down(a[2], 1, LAMBDA i : Lay(ColorOf(a[4], LumAt(a[3], i, a[2])),
                ThickLines(im, a[1], i, alt) \cup DiscsSet(im, LineSet(a[1][1], a[1][Len(a[1])]), i, alt))))
    [] e.op = "gradplotlines" ->
         Out(Down(a[2], 1, LAMBDA i : Lay(ColorOf(a[4], LumAt(a[3], i, a[2])),
                IF i <= 1 THEN ILines(im, a[1], alt) ELSE ThickLines(im, a[1], i, alt))))
    [] e.op = "gradvert" ->
         Out(Down(a[2], 1, LAMBDA i : Lay(ColorAt(a[4], a[3], i, a[2]),
                UNION {PenSet(im, a[1][j], i, alt) : j \in 1 .. Len(a[1])})))

ColorEff(e, im, OO, alt) ==
  LET a == e.a
      O == Obs(im, OO)
      W == im.w - 1
      H == im.h - 1
  IN
  CASE e.op \in AdjRegion ->
         G24Rect(im, a, InPlace(AdjRect(im, O, Kind(e.op), IF Kind(e.op) = 1 THEN 0 ELSE a[5], a[1], a[2], a[3], a[4], alt)))
    [] e.op \in AdjWhole ->
         G24(im, InPlace(AdjRect(im, O, Kind(e.op), IF Kind(e.op) = 1 THEN 0 ELSE a[1], 0, 0, W, H, alt)))
    [] e.op \in AdjCirc -> G24(im, InPlace(AdjDisc(im, O, Kind(e.op), IF Kind(e.op) = 1 THEN 0 ELSE a[4], a, alt)))
    [] e.op = "verticalbrightnessgradto24bitregion" -> G24Rect(im, a, InPlace(VGrad(im, O, a[1], a[2], a[3], a[4], a[5])))
    [] e.op = "verticalbrightnessgradto24bitimage" -> G24(im, InPlace(VGrad(im, O, 0, 0, W, H, a[1])))
    [] e.op = "horizontalbrightnessgradto24bitregion" ->
         G24Rect(im, a, InPlace(HGrad(im, O, a[1], a[2], a[3], a[4], a[5], alt)))
    [] e.op = "horizontalbrightnessgradto24bitimage" -> G24(im, InPlace(HGrad(im, O, 0, 0, W, H, a[1], alt)))
    [] e.op = "vertbrightnessgrad2circregion" -> G24Circ(im, a, InPlace(VGradC(im, O, a, alt)))
    [] e.op = "horibrightnessgrad2circregion" -> G24Circ(im, a, InPlace(HGradC(im, O, a, alt)))
    [] e.op = "filledgradrect" ->
         G824Rect(im, a, InPlace(GradRect(im, O, a[1], a[2], a[3], a[4], a[7], LAMBDA k, n : LumMix(a[6], a[5], k, n), alt)))
    [] e.op = "fillbackgroundwithgrad" ->
         G824(im, InPlace(GradRect(im, O, 0, 0, W, H, a[3], LAMBDA k, n : LumMix(a[2], a[1], k, n), alt)))
    [] e.op = "filleddichromaticgradrect" ->
         G24Rect(im, a, InPlace(GradRect(im, O, a[1], a[2], a[3], a[4], a[7], LAMBDA k, n : DiMix(a[5], a[6], k, n), alt)))
    [] e.op = "fillbackgroundwithdichromaticgrad" ->
         G24(im, InPlace(GradRect(im, O, 0, 0, W, H, a[4], LAMBDA k, n : DiMix(a[2], a[3], k, n), alt)))
    [] e.op \in GradPen -> PenEff(e, im, O, alt)
=============================================================================
