------------------------------ MODULE MCColor ------------------------------
(* Colour adjustments, gradients, palettes, depth changes, edges, comparison *)
(* and erased lines on small bitmaps and all channel values.                 *)
EXTENDS MCBase

\* width, height, depth
CSize == [v24 |-> <<16, 16, 24>>, w24 |-> <<16, 16, 24>>, e8 |-> <<3, 2, 8>>,
          a1 |-> <<10, 2, 1>>, a4 |-> <<5, 2, 4>>, a8 |-> <<4, 3, 8>>, a24 |-> <<4, 3, 24>>,
          b1 |-> <<11, 4, 1>>, b4 |-> <<7, 4, 4>>, b8 |-> <<7, 5, 8>>, b24 |-> <<7, 5, 24>>,
          c1 |-> <<9, 5, 1>>, c4 |-> <<7, 5, 4>>, c8 |-> <<6, 5, 8>>, c24 |-> <<5, 5, 24>>,
          f1 |-> <<3, 3, 1>>, f4 |-> <<3, 2, 4>>, f8 |-> <<3, 2, 8>>, f24 |-> <<3, 2, 24>>,
          p1 |-> <<2, 1, 1>>, p4 |-> <<4, 4, 4>>, p8 |-> <<16, 16, 8>>][IOEnv.MCSIZE]
W == CSize[1]
H == CSize[2]
D == CSize[3]
\* every value of every channel
Values24 == Picture(16, 16, 24, LAMBDA i : Pack(i - 1, (7 * i + 3) % 256, 256 - i))
\* all pictures of a few colours
Few == CASE D = 1 -> {0, 1} [] D = 4 -> {0, 5, 15} [] D = 8 -> {0, 7, 255} [] OTHER -> {0, 65793, 16777215}
AllPics == {[Blank(W, H, D) EXCEPT !.px = q] : q \in [1 .. W * H -> Few]}
Bars(w, h, b) == Picture(w, h, b, LAMBDA i : IF b = 24 THEN i * 1118481 + 4369 * (i % 7) ELSE (i * i) \div 2 + i)
Init == n = 0 /\
  CASE What \in {"C16", "C20"} -> im \in AllPics
    [] IOEnv.MCSIZE \in {"v24", "w24"} -> im = Values24
    [] OTHER -> im = Bars(W, H, D)

Same(f) == f.s = im
R(f, i) == R8(f.s.px[i])
Ch(c) == <<R8(c), G8(c), B8(c)>>
NP == 1 .. W * H
Rects == {<<p[1], p[2], q[1], q[2]>> : p \in PP, q \in QQ}
InBox(f, a) == Painted(f) \subseteq RectSet(a[1], a[2], a[3], a[4])
Valid(a) == InB(im, a[1], a[2]) /\ InB(im, a[3], a[4])
Circles == {c \in (-1 .. im.w) \X (-1 .. im.h) \X (0 .. 3) : c[3] < 2 \/ EntireCirc(im, c[1], c[2], c[3])}
Round(P, c) == \A p \in P : (p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2]) <= c[3] * c[3] + c[3]

(* ---- C13 --------------------------------------------------------------- *)
Fac == {<<0, 1>>, <<1, 1>>, <<1, 2>>, <<3, 4>>, <<2, 1>>, <<1, 3>>, <<7, 10>>}
Lum == {0, 1, 2, 64, 127, 128, 200, 254, 255}
Fits(p, kind) == CASE kind = 2 -> <<<<<<1, 2>>, <<1, 1>>, <<0, 1>>>>>> [] kind = 3 -> <<<<-40, 1>>>> [] kind = 4 -> <<<<60, 130>>>>
                   [] kind = 5 -> <<<<2, 1>>>> [] OTHER -> <<>>
WholeAdj ==
  \/ Do(E1("monofilterto24bitimage", <<>>), LAMBDA f : \A i \in NP : LET c == f.s.px[i] IN
        /\ R8(c) = G8(c) /\ G8(c) = B8(c) /\ c = Mono(c) /\ 3 * R8(c) <= R8(im.px[i]) + G8(im.px[i]) + B8(im.px[i]))
  \/ \E g \in Fac \X Fac \X Fac : Do(E1("colorfilterto24bitimage", <<g>>), LAMBDA f :
       \A i \in NP, k \in 1 .. 3 : LET u == Ch(im.px[i])[k]  v == Ch(f.s.px[i])[k] IN
         /\ g[k] = <<1, 1>> => u = v
         /\ g[k][1] = 0 => v = 0
         /\ g[k][1] <= g[k][2] => v <= u
         /\ g[k][1] >= g[k][2] => v >= u)
  \/ \E p \in -110 .. 260 : (IOEnv.MCSIZE = "v24" => p % 4 = 0 \/ Abs(p) < 4 \/ Abs(p + 100) < 3) /\ Do(E1("brightnesseadjto24bitimage", <<<<p, 1>>>>), LAMBDA f :
       LET Next1 == Res("brightnesseadjto24bitimage", <<<<p + 1, 1>>>>, im) IN
       /\ p = 0 => Same(f)
       /\ p <= -100 => \A i \in NP : f.s.px[i] = 0
       /\ \A i \in NP, k \in 1 .. 3 : Ch(f.s.px[i])[k] <= Ch(Next1.px[i])[k])
  \/ \E p \in {<<q, 3>> : q \in -310 .. 400} : p[1] % (IF IOEnv.MCSIZE = "v24" THEN 31 ELSE 7) = 0 /\ Do(E1("brightnesseadjto24bitimage", <<p>>), LAMBDA f : TRUE)
  \/ \E l \in Lum \X Lum : Do(E1("thresholdadjto24bitimage", <<l>>), LAMBDA f :
       \A i \in NP : LET m == MaxC(im.px[i])  v == MaxC(f.s.px[i])  lo == Min2(l[1], l[2])  hi == Max2(l[1], l[2]) IN
         /\ m = 0 \/ (m >= lo /\ m <= hi) => f.s.px[i] = im.px[i]
         /\ m > 0 => v >= lo - 1 /\ v <= hi
         /\ (m > hi => v >= hi - 1))
  \/ \E g \in {<<1, 1>>, <<2, 1>>, <<3, 1>>, <<1, 2>>} : Do(E1("gammaadjto24bitimage", <<g>>), LAMBDA f :
       \A i \in NP, k \in 1 .. 3 : LET u == Ch(im.px[i])[k]  v == Ch(f.s.px[i])[k] IN
         /\ g[1] >= g[2] => v <= u
         /\ g = <<1, 2>> => v >= u - 2
         /\ g = <<1, 1>> => v >= u - 2)
RegionAdj ==
  \E a \in Rects : \E op \in AdjRegion :
    Do(E1(op, a \o Fits(op, Kind(op))), LAMBDA f :
      IF ~Valid(a) THEN f.msg = {M_region}
      ELSE /\ InBox(f, a)
           /\ Crop(f.s, a[1], a[2], a[3], a[4]).px =
                Res(CASE Kind(op) = 1 -> "monofilterto24bitimage" [] Kind(op) = 2 -> "colorfilterto24bitimage"
                      [] Kind(op) = 3 -> "brightnesseadjto24bitimage" [] Kind(op) = 4 -> "thresholdadjto24bitimage"
                      [] OTHER -> "gammaadjto24bitimage", Fits(op, Kind(op)), Crop(im, a[1], a[2], a[3], a[4])).px)
CircleAdj ==
  \E c \in Circles : \E op \in AdjCirc : Do(E1(op, c \o Fits(op, Kind(op))), LAMBDA f : Round(Painted(f), c))
C13 == IF IOEnv.MCSIZE \in {"v24", "w24"} THEN WholeAdj
       ELSE (IF IOEnv.MCSIZE \in {"c24"} THEN CircleAdj ELSE RegionAdj)

(* ---- C14 --------------------------------------------------------------- *)
LL == {<<255, 0>>, <<0, 255>>, <<40, 200>>, <<128, 128>>, <<255, 254>>}
FF == {<<<<1, 1>>, <<1, 1>>, <<1, 1>>>>, <<<<1, 1>>, <<0, 1>>, <<1, 2>>>>, <<<<1, 3>>, <<2, 5>>, <<1, 1>>>>}
CC == {0, 16777215, 8405120, 255}
OneColour(f, S) == Cardinality({At(f.s, p[1], p[2]) : p \in S}) = 1
Straight(f, x1, y1, x2, y2, dir) ==
  IF dir = 0 THEN \A x \in Min2(x1, x2) .. Max2(x1, x2) : OneColour(f, RectSet(x, y1, x, y2))
  ELSE \A y \in Min2(y1, y2) .. Max2(y1, y2) : OneColour(f, RectSet(x1, y, x2, y))
C14 ==
  \/ \E a \in Rects, dir \in 0 .. 1 : \E o \in {<<"filledgradrect", <<255, 40>>, <<<<1, 1>>, <<1, 2>>, <<0, 1>>>>>>, <<"filleddichromaticgradrect", 16711935, 4660>>} :
       (D = 24 \/ o[1] = "filledgradrect") /\
       Do(E1(o[1], a \o <<o[2], o[3], dir>>), LAMBDA f :
         IF ~Valid(a) THEN f.msg = {M_region} ELSE InBox(f, a) /\ Straight(f, a[1], a[2], a[3], a[4], dir))
  \/ \E l \in LL, g \in FF, dir \in 0 .. 1 : Do(E1("fillbackgroundwithgrad", <<l, g, dir>>), LAMBDA f :
       /\ Straight(f, 0, 0, W - 1, H - 1, dir)
       /\ l[1] = l[2] => OneColour(f, QQ)
       /\ D = 24 => \A x \in Cols(im), y \in Rows(im), k \in 1 .. 3 :
            LET u == Ch(At(f.s, x, y))[k]
                v == Ch(At(f.s, IF dir = 0 THEN Min2(W - 1, x + 1) ELSE x, IF dir = 1 THEN Min2(H - 1, y + 1) ELSE y))[k]
            IN  IF l[1] <= l[2] THEN u <= v ELSE u >= v)
  \/ D = 24 /\ \E c \in CC \X CC, dir \in 0 .. 1 : Do(E1("fillbackgroundwithdichromaticgrad", <<<<0, 255>>, c[1], c[2], dir>>), LAMBDA f :
       /\ Straight(f, 0, 0, W - 1, H - 1, dir)
       /\ c[1] = c[2] => \A i \in NP : f.s.px[i] = c[1]
       /\ At(f.s, 0, 0) = c[1])
  \/ D = 24 /\ \E a \in Rects, op \in {"verticalbrightnessgradto24bitregion", "horizontalbrightnessgradto24bitregion"}, l \in {<<-60, 90>>, <<0, 0>>} :
       Do(E1(op, Append(a, l)), LAMBDA f : IF ~Valid(a) THEN f.msg = {M_region} ELSE InBox(f, a) /\ (l = <<0, 0>> => Same(f)))
  \/ D = 24 /\ \E l \in {<<-100, 0>>, <<0, -100>>, <<30, 30>>, <<-50, 150>>} :
       \E op \in {"verticalbrightnessgradto24bitimage", "horizontalbrightnessgradto24bitimage"} : Do(E1(op, <<l>>), LAMBDA f : TRUE)
  \/ \E c \in (-1 .. im.w) \X (-1 .. im.h) \X (1 .. 4) : c[1] % 2 = 0 /\
       LET fr == <<<<1, 1>>, <<1, 2>>, <<0, 1>>>> IN
       \/ Do(E1("gradcircle", c \o <<<<200, 50>>, fr>>), LAMBDA f : Round(Painted(f), <<c[1], c[2], c[3] + 1>>))
       \/ Do(E1("sphere", Append(c, fr)), LAMBDA f : Round(Painted(f), <<c[1], c[2], c[3] + 1>>))
       \/ Do(E1("gradthickcircle", c \o <<2, <<200, 50>>, fr>>), LAMBDA f : Round(Painted(f), <<c[1], c[2], c[3] + 2>>))
       \/ c[3] > 1 /\ Do(E1("orb", Append(c, fr)), LAMBDA f : Round(Painted(f), <<c[1], c[2], c[3] + 1>>))
       \/ Do(E1("gradellipse", c \o <<1 + (c[2] % 3), <<0, 255>>, fr>>), LAMBDA f : TRUE)
  \/ \E p \in PP, q \in QQ : p[1] % 3 = 0 /\ q[2] % 2 = 0 /\
       Do(E1("gradthickroundline", <<p, q, 2, <<255, 64>>, <<<<1, 1>>, <<1, 1>>, <<1, 2>>>>>>), LAMBDA f :
          \A z \in Painted(f) : z \in (Min2(p[1], q[1]) - 2 .. Max2(p[1], q[1]) + 2) \X (Min2(p[2], q[2]) - 2 .. Max2(p[2], q[2]) + 2))

(* ---- C15 --------------------------------------------------------------- *)
NC == NColors(D)
Cube(k) == {Pack(a, b, c) : a, b, c \in {(255 * i) \div k : i \in 0 .. k}}
C15 ==
  \/ (n = 0 \/ (D < 8 /\ n = 1)) /\ \E k \in {-NC - 1, -NC, -1, 0, 1, 2, 3, NC - 1, NC, NC + 1} :
       Do(E1("palshift", <<k>>), LAMBDA f : IF D = 1 THEN Same(f) /\ f.msg # {}
          ELSE /\ {f.s.pal[i] : i \in 1 .. NC} = {im.pal[i] : i \in 1 .. NC}
               /\ k % NC = 0 => Same(f)
               /\ k > 0 => Res("palshift", <<NC - (k % NC)>>, f.s) = im)
  \/ n = 0 /\ \E i \in 0 .. NC - 1, c \in (IF D = 8 THEN {66051} ELSE {66051, 16777215, 0}) :
       Do(E1("setRGBpal", <<i, R8(c), G8(c), B8(c)>>), LAMBDA f :
         /\ f.s.pal[i + 1] = c /\ \A j \in 1 .. NC : j # i + 1 => f.s.pal[j] = im.pal[j])
  \/ \E k \in {0, 1, NC \div 2, NC - 1} : Do(E1("getRGBpal", <<k>>), LAMBDA f : Same(f) /\ f.ret.v = Ch(im.pal[k + 1]))
  \/ (n = 0 \/ (D = 4 /\ n = 1 /\ im.pal[1] # 0) \/ (D = 1 /\ n = 1)) /\ \E c \in Cube(IF D = 8 \/ (D = 4 /\ n = 1) THEN 2 ELSE 5) : Do(E1("plotRGBxybit", <<1, 0, Ch(c)>>), LAMBDA f :
       LET v == At(f.s, 1, 0)
           B == {i \in 1 .. NC : im.pal[i] # 0 /\ Dist2(im.pal[i], c) < 442 * 442} IN
       /\ (\E i \in 1 .. NC : im.pal[i] = c) => im.pal[v + 1] = c
       /\ c = 0 \/ im.pal[v + 1] = c \/ im.pal[v + 1] = 0 \/ \A i \in B : Dist2(im.pal[v + 1], c) <= Dist2(im.pal[i], c)
       /\ Painted(f) \subseteq {<<1, 0>>})
  \/ n = 0 /\ \E g \in FF \cup {<<<<0, 1>>, <<0, 1>>, <<1, 1>>>>, <<<<3, 4>>, <<1, 4>>, <<1, 7>>>>} :
       \/ Do(E1("setBMP2monochrome", <<g>>), LAMBDA f : \A i \in 2 .. NC, k \in 1 .. 3 : Ch(f.s.pal[i - 1])[k] <= Ch(f.s.pal[i])[k])
       \/ \E m \in {1, 20, 37}, z \in {0, 100} : Do(E1("setBMP2invshiftedmonochrome", <<g, m, z>>), LAMBDA f : f.s.px = im.px)
  \/ n = 0 /\ \E c \in Cube(1) \X Cube(1) : Do(E1("setBMP2dichromaticpal", c), LAMBDA f :
       /\ f.s.pal[1] = c[1] /\ (c[1] = c[2] => \A j \in 1 .. NC : f.s.pal[j] = c[1])
       /\ \A i \in 1 .. NC, k \in 1 .. 3 : Ch(f.s.pal[i])[k] \in Min2(Ch(c[1])[k], Ch(c[2])[k]) .. Max2(Ch(c[1])[k], Ch(c[2])[k]))
  \/ n = 0 /\ \E p \in -110 .. 260 : (D = 8 => p % 10 = 0 \/ p \in {-99, 1, 33}) /\
       Do([E1("RGBpalbrightnessadjust", <<<<p, 1>>>>) EXCEPT !.ret = RSeq(<<>>)], LAMBDA f : /\ Same(f)
         /\ p = 0 => \A j \in 1 .. NC : f.ret.v[j] = Ch(im.pal[j])
         /\ p <= -100 => \A i \in 1 .. NC : f.ret.v[i] = <<0, 0, 0>>)
  \/ Do(E1("itercolorcycle", <<>>), LAMBDA f : D = 4 => \A k \in 1 .. NC : f.ret.v[k] = Res("palshift", <<k - 1>>, im).pal)

(* ---- C16 --------------------------------------------------------------- *)
RECURSIVE SumK(_)
SumK(L) == IF L = <<>> THEN 0 ELSE L[1][1] + SumK(Tail(L))
C16 ==
  \/ Do(Ed("upgradeto24bitimage", <<>>), LAMBDA f : IF D = 24 THEN f.msg # {} ELSE
       /\ Same(f) /\ f.d.w = W /\ f.d.h = H
       /\ Run(E1("iterimageRGB", <<>>), f.d).ret.v = Run(E1("iterimageRGB", <<>>), im).ret.v)
  \/ Do(E1("colorhistogram", <<>>), LAMBDA f : /\ Same(f) /\ SumK(f.ret.v) = W * H
       /\ \A i \in 2 .. Len(f.ret.v) : f.ret.v[i - 1][1] >= f.ret.v[i][1]
       /\ f.ret.v = Run(E1("colorhistogram", <<>>), Res("flipvertical", <<>>, im)).ret.v)
  \/ Do(E1("iterimagecolor", <<>>), LAMBDA f : Same(f) /\ {f.ret.v[i][1] : i \in NP} = QQ
       /\ \A i \in NP : f.ret.v[i][2] = At(im, f.ret.v[i][1][1], f.ret.v[i][1][2]))
  \/ Do(E1("iterimageRGB", <<>>), LAMBDA f : Same(f) /\ Len(f.ret.v) = W * H)
  \/ \E p \in QQ : Do(E1("getneighborcolorlist", <<p>>), LAMBDA f : Same(f) /\ Len(f.ret.v) \in {1, 2, 3, 4, 6, 9})
  \/ D = 24 /\ \E b \in {4, 8}, t \in {<<0, 1>>, <<1, 1>>, <<442, 1>>} : Do(Ef("reduce24bitimagebits", <<b, t, 0, <<>>>>), LAMBDA f :
       /\ f.d.b = b /\ f.d.w = W /\ f.d.h = H
       \* all colours fit into the palette
       /\ t[1] <= 1 => \A i \in NP : f.d.pal[f.d.px[i] + 1] = im.px[i])

(* ---- C20 --------------------------------------------------------------- *)
Set(L) == {L[i] : i \in 1 .. Len(L)}
TT == IF D = 24 THEN {0, 1, 2, 439, 441, 442} ELSE {0, 1, 200, 441, 442}
EdgesOf(m, t) == Set(Run(E1("getimagedgevert", <<<<t, 1>>>>), m).ret.v)
C20 ==
  \/ \E t \in TT : Do(E1("getimagedgevert", <<<<t, 1>>>>), LAMBDA f :
       /\ Same(f)
       /\ (\A i \in NP : im.px[i] = im.px[1]) => f.ret.v = <<>>
       /\ EdgesOf(im, t + 1) = {} \/ f.ret.v # <<>>
       /\ t >= 442 => f.ret.v = <<>>)
  \/ \E c \in Few, t \in TT : LET q == Ch(RGBof(im, c)) IN Do(E1("getimageregionbyRGB", <<q, <<t, 1>>>>), LAMBDA f :
       /\ Same(f)
       /\ t = 0 => f.ret.v = <<>>
       /\ t = 442 => Set(f.ret.v) = QQ
       /\ t >= 1 => {p \in QQ : At(im, p[1], p[2]) = c} \subseteq Set(f.ret.v))
  \/ \E t \in {<<1, 1>>} : EdgesOf(im, 1) # {} /\ Do(Ef("autocropimg2file", <<t>>), LAMBDA f :
       f.d.w <= W /\ f.d.h <= H /\ Values24 # f.d)
  \/ D = 1 /\ \E r \in 1 .. 2 : Do(E1("plotimgedges", <<<<1, 1>>, r, 1>>), LAMBDA f : r = 1 => Painted(f) \subseteq EdgesOf(im, 1))
  \/ \E m \in {im, Res("flipvertical", <<>>, im), Res("invertimagebits", <<>>, im), Blank(W, H, D), Blank(W, H + 1, D), Blank(W, H, IF D = 8 THEN 4 ELSE 8)} :
       \/ Do2(Ev("imagediff", <<>>, 9, 11, 10), m, LAMBDA f :
            IF <<m.w, m.h, m.b>> # <<W, H, D>> THEN f.msg = {M_cmp}
            ELSE /\ (m = im) = (\A i \in NP : f.d.px[i] = 0)
                 /\ f.d.px = Run2(Ev("imagediff", <<>>, 9, 11, 10), m, im).d.px
                 /\ Run2(Ev("imagediff", <<>>, 9, 11, 10), f.d, m).d.px = im.px)
       \/ Do2(Ev("showsimilarparts", <<>>, 9, 11, 10), m, LAMBDA f :
            IF <<m.w, m.h, m.b>> # <<W, H, D>> THEN f.msg = {M_cmp} ELSE m = im => f.d.px = im.px)

(* ---- C21 --------------------------------------------------------------- *)
EE == {<<1, 0, 0>>, <<2, 0, 255>>, <<2, 1, 170>>, <<3, 2, 3>>, <<3, 1, -86>>, <<4, 4, 0>>}
Rows2(f) == {p[2] : p \in Painted(f)}
C21 ==
  \/ \E z \in EE : Do(E1("erasealternatehorizontallines", z), LAMBDA f : \A y \in Rows2(f) : (y + 1) % z[1] = z[2])
  \/ \E k \in 1 .. 4 : Do(E1("eraseeverynthhorizontalline", <<k>>), LAMBDA f :
       \A x \in Cols(im), y \in Rows(im) : At(f.s, x, y) = IF (y + 1) % k = 0 THEN 0 ELSE At(im, x, y))
  \/ \E a \in Rects :
       \/ \E z \in EE : Do(E1("erasealternatehorizontallinesinregion", a \o z), LAMBDA f :
            IF ~Valid(a) THEN f.msg = {M_region}
            ELSE /\ InBox(f, a) /\ Res("erasealternatehorizontallinesinregion", a \o z, f.s) = f.s
                 /\ \A y \in Rows2(f) : (y - Min2(a[2], a[4]) + 1) % z[1] = z[2])
       \/ \E k \in 1 .. 3 : Do(E1("eraseeverynthhorilineinregion", Append(a, k)), LAMBDA f :
            IF ~Valid(a) THEN f.msg = {M_region} ELSE InBox(f, a) /\ Same(f) = (\A p \in RectSet(a[1], a[2], a[3], a[4]) :
               (p[2] - Min2(a[2], a[4]) + 1) % k = 0 => At(im, p[1], p[2]) = 0))
       \/ Do(E1("outlineregion", a), LAMBDA f : IF ~Valid(a) THEN f.msg = {M_region}
            ELSE /\ InBox(f, a)
                 /\ \A x \in Min2(a[1], a[3]) .. Max2(a[1], a[3]) : At(f.s, x, Min2(a[2], a[4])) = 0
                 /\ D < 24 => \A x \in Min2(a[1], a[3]) .. Max2(a[1], a[3]), y \in Min2(a[2], a[4]) + 1 .. Max2(a[2], a[4]) :
                      (At(f.s, x, y) = 0) = (At(im, x, y) = At(im, x, y - 1)))
  \/ Do(E1("outline", <<>>), LAMBDA f : f.s = Res("outlineregion", <<0, 0, W - 1, H - 1>>, im))
  \/ \E c \in Circles :
       \/ \E z \in EE : Do(E1("erasealternatehorizontallinesincircregion", c \o z), LAMBDA f :
            Round(Painted(f), c) /\ \A y \in Rows2(f) : y % z[1] = z[2])
       \/ \E k \in 1 .. 3 : Do(E1("eraseeverynthhorizontallineinccircregion", Append(c, k)), LAMBDA f : Round(Painted(f), c))

Next == (What # "C15" => n = 0) /\ n < 3 /\
  CASE What = "C13" -> C13 [] What = "C14" -> C14 [] What = "C15" -> C15 [] What = "C16" -> C16 [] What = "C20" -> C20 [] What = "C21" -> C21
Spec == Init /\ [][Next]_<<im, n>>
Good == WellFormed(im)
=============================================================================
