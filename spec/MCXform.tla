------------------------------ MODULE MCXform ------------------------------
(* Flips, mirrors, regions, circles, copying and resizing on small bitmaps. *)
EXTENDS MCBase

\* width, height, depth; 0: all sizes up to the given one
BoxSize == [a1 |-> <<10, 1, 1>>, a4 |-> <<5, 2, 4>>, a8 |-> <<4, 2, 8>>, a24 |-> <<3, 3, 24>>,
         l1 |-> <<11, 3, 1>>, l4 |-> <<5, 3, 4>>, l8 |-> <<5, 3, 8>>, l24 |-> <<4, 4, 24>>,
         c1 |-> <<9, 5, 1>>, c4 |-> <<7, 6, 4>>, c8 |-> <<6, 6, 8>>, c24 |-> <<7, 7, 24>>,
         d1 |-> <<11, 9, 1>>, d4 |-> <<9, 9, 4>>, d8 |-> <<9, 8, 8>>, d24 |-> <<9, 9, 24>>][IOEnv.MCSIZE]
W == BoxSize[1]
H == BoxSize[2]
D == BoxSize[3]
\* images that tell all pixels of a low depth apart: image k holds digit k of the number of the pixel
DigitPics(w, h, b) == {Picture(w, h, b, LAMBDA i : i \div (2 ^ (b * k))) : k \in {k \in 0 .. 7 : k = 0 \/ 2 ^ (b * k) <= w * h}}
Source(w, h, b) == IF b >= 8 THEN {Distinct(w, h, b)} ELSE DigitPics(w, h, b)
Init == n = 0 /\ (IF What \in {"C08", "C12"} THEN \E w \in 1 .. W, h \in 1 .. H : im \in Source(w, h, D) ELSE im \in Source(W, H, D))

Same(f) == f.s = im
Twice(op, a, f) == Res(op, a, f.s) = im
Again(op, a, f) == Res(op, a, f.s) = f.s
\* what a transform does to its area, when done twice
Law(op, hv, a, f) == IF "F" \in {hv[1], hv[2]} THEN Twice(op, a, f) ELSE Again(op, a, f)
Values(m) == {m.px[i] : i \in 1 .. Len(m.px)}

(* ---- C08: whole bitmaps ---------------------------------------------- *)
TwoMirrors == [mirrortopleft |-> <<"mirrortop", "mirrorleft">>, mirrortopright |-> <<"mirrortop", "mirrorright">>,
           mirrorbottomleft |-> <<"mirrorbottom", "mirrorleft">>, mirrorbottomright |-> <<"mirrorbottom", "mirrorright">>]
C08 ==
  \/ \E op \in DOMAIN HV : Do(E1(op, <<>>), LAMBDA f :
       /\ Law(op, HV[op], <<>>, f) /\ Values(f.s) \subseteq Values(im)
       /\ op \in DOMAIN TwoMirrors => LET c == TwoMirrors[op] IN
            /\ f.s = Res(c[2], <<>>, Res(c[1], <<>>, im)) /\ f.s = Res(c[1], <<>>, Res(c[2], <<>>, im))
       /\ op \in {"mirrortop", "mirrorbottom", "mirrortopleft", "mirrorbottomright"} => f.s = Res("flipvertical", <<>>, f.s)
       /\ op \in {"mirrorleft", "mirrorright", "mirrortopleft", "mirrorbottomright"} => f.s = Res("fliphorizontal", <<>>, f.s))
  \/ Do(E1("invertimagebits", <<>>), LAMBDA f : Twice("invertimagebits", <<>>, f)
       /\ \A i \in 1 .. Len(im.px) : im.px[i] + f.s.px[i] = NColors(D) - 1)
  \/ Do(Ed("flipXY", <<>>), LAMBDA f : /\ Same(f) /\ f.d.w = im.h /\ f.d.h = im.w
       /\ Res("flipXY", <<>>, f.d).px = im.px
       /\ Res("fliphorizontal", <<>>, f.d).px = Res("flipXY", <<>>, Res("flipvertical", <<>>, im)).px)

(* ---- C09: regions ---------------------------------------------------- *)
WholeOf(op) == IF op = "invertregion" THEN "invertimagebits" ELSE CHOOSE o \in DOMAIN HV : HV[o] = RegionHV[op]
InOrder(a) == a[1] <= a[3] /\ a[2] <= a[4]
C09 ==
  \E p \in PP, q \in QQ :
    LET a == <<p[1], p[2], q[1], q[2]>> IN
    \E op \in RegionOps :
      /\ op \in {"fliphorzontalpixelbased", "fliphverticalalpixelbased"} => InOrder(a) /\ In(p)
      /\ Do(E1(op, a), LAMBDA f :
          IF ~In(p) THEN f.msg = {M_region}
          ELSE /\ OK(f) /\ Painted(f) \subseteq Box(p, q)
               /\ Crop(f.s, a[1], a[2], a[3], a[4]).px = Res(WholeOf(op), <<>>, Crop(im, a[1], a[2], a[3], a[4])).px
               /\ IF op = "invertregion" THEN Twice(op, a, f) ELSE Law(op, RegionHV[op], a, f)
               /\ f.s = Res(op, <<a[3], a[2], a[1], a[4]>>, im) /\ f.s = Res(op, <<a[1], a[4], a[3], a[2]>>, im))

(* ---- C10: circular regions ------------------------------------------- *)
Fits(c, r) == c[1] - r >= 0 /\ c[2] - r >= 0 /\ c[1] + r < im.w /\ c[2] + r < im.h
Around2(p, c) == (p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2])
Inside(P, c, r) == \A p \in P : Around2(p, c) <= r * r + r
C10 ==
  \E c \in (-1 .. im.w) \X (-1 .. im.h), r \in 0 .. 4 :
    (Fits(c, r) \/ (r < 2 /\ c[1] + c[2] < 4)) /\
    LET a == <<c[1], c[2], r>>
        lo == IF D = 24 THEN M_24 ELSE M_region IN
    \/ \E op \in DOMAIN CircHV \cup {"flipXYcircregion"} : Do(E1(op, a), LAMBDA f :
         IF ~Fits(c, r) THEN f.msg = {M_region}
         ELSE /\ OK(f) /\ Inside(Painted(f), c, r)
              /\ op = "flipvertcircregion" => Twice(op, a, f)
              /\ op \in {"mirrortopincircregion", "mirrorbottomincircregion"} => Again(op, a, f)
              \* a quarter turn, or a reflection at the diagonal
              /\ op = "flipXYcircregion" => IF D < 8 THEN Twice(op, a, f) ELSE Res(op, a, Res(op, a, Res(op, a, f.s))) = im)
    \/ \E op \in DOMAIN CircHH \cup DOMAIN CircCorner : Do(E1(op, a), LAMBDA f :
         IF D < 8 THEN f.msg = {M_24or8}
         ELSE IF ~Fits(c, r) THEN f.msg = {M_region}
         ELSE /\ OK(f) /\ Inside(Painted(f), c, r)
              /\ IF op = "fliphoricircregion" THEN Twice(op, a, f) ELSE Again(op, a, f))
    \/ Do(E1("invertbitsincircregion", a), LAMBDA f : Twice("invertbitsincircregion", a, f) /\ Inside(Painted(f), c, r)
            /\ \A p \in QQ : Around2(p, c) <= r * r - r => p \in Painted(f))
    \/ Fits(c, r) /\ Do(E1("outlinecircregion", a), LAMBDA f : Inside(Painted(f), c, r))
    \/ \E q \in {<<r, r>>, <<im.w - 1 - r, r>>, <<r, r + 1>>, <<0, r>>} : Fits(c, r) /\
         Do(E1("copycircregion", Append(a, q)), LAMBDA f :
           IF ~Fits(q, r) THEN Same(f)
           ELSE /\ Inside(Painted(f), q, r)
                /\ \A p \in QQ : Around2(p, q) <= r * r - r => At(f.s, p[1], p[2]) = At(im, p[1] - q[1] + c[1], p[2] - q[2] + c[2]))
    \/ D = 24 /\ r < 4 /\ \E k \in 1 .. 3, op \in {"magnifyNtimescircregion", "pixelizenxncircregion"} : Fits(c, r) /\
         Do(E1(op, Append(a, k)), LAMBDA f :
           /\ Inside(Painted(f), c, r) /\ (k = 1 => Same(f))
           /\ op = "magnifyNtimescircregion" => At(f.s, c[1], c[2]) = At(im, c[1], c[2]) /\ Values(f.s) \subseteq Values(im))

(* ---- C11: copying ---------------------------------------------------- *)
Buf(m, a) == Run(E1("copyrect", a), m).ret.v
C11 ==
  \/ \E p \in PP, q \in QQ :
       LET a == <<p[1], p[2], q[1], q[2]>> IN
       \/ Do(Ed("crop", a), LAMBDA f :
            IF ~In(p) THEN f.msg = {M_region}
            ELSE /\ Same(f) /\ f.d.w = Abs(p[1] - q[1]) + 1 /\ f.d.h = Abs(p[2] - q[2]) + 1
                 /\ f.d.px = Res("convertselection2BMP", <<Buf(im, a)>>, im).px
                 /\ \A x \in Cols(f.d), y \in Rows(f.d) : At(f.d, x, y) = At(im, x + Min2(p[1], q[1]), y + Min2(p[2], q[2]))
                 /\ Res("crop", <<0, 0, f.d.w - 1, f.d.h - 1>>, f.d).px = f.d.px)
       \/ Do(E1("copyrect", a), LAMBDA f : Same(f) /\ (In(p) =>
            /\ Res("pasterect", <<f.ret.v, Min2(p[1], q[1]), Min2(p[2], q[2])>>, im) = im
            /\ f.ret.v = Buf(im, <<q[1], q[2], p[1], p[2]>>)))
       \/ Do(E1("itercopyrect", a), Same)
       \/ In(p) /\ Do(Ed("convertselection2BMP", <<Buf(im, a)>>), LAMBDA f : Same(f) /\ f.d.b = D)
  \/ \E p \in QQ, q \in QQ, t \in PP : p[1] <= q[1] /\ p[2] <= q[2] /\
       LET a == <<p[1], p[2], q[1], q[2]>>
           o == <<t[1] + q[1] - p[1], t[2] + q[2] - p[2]>> IN
       Do(E1("pasterect", <<Buf(im, a), t[1], t[2]>>), LAMBDA f :
          IF ~(In(t) /\ In(o)) THEN f.msg = {M_region}
          ELSE /\ Painted(f) \subseteq Box(t, o)
               /\ Crop(f.s, t[1], t[2], o[1], o[2]).px = Crop(im, p[1], p[2], q[1], q[2]).px)
  \/ D >= 8 /\ \E p \in QQ, y \in YY : Do(E1("vertBMPbitBLTget", <<p[1], p[2], y>>), Same)

(* ---- C12: sizes ------------------------------------------------------ *)
C12 ==
  \E k \in 1 .. 3 :
    \/ Do(Ed("resizeNtimesbigger", <<k>>), LAMBDA f :
         /\ Same(f) /\ f.d.w = k * im.w /\ f.d.h = k * im.h /\ f.d.pal = im.pal
         /\ \A x \in Cols(f.d), y \in Rows(f.d) : At(f.d, x, y) = At(im, x \div k, y \div k)
         /\ D = 24 => Res("resizeNtimessmaller", <<k>>, f.d).px = im.px
         /\ D = 24 => Res("pixelizenxn", <<k>>, f.d).px = f.d.px)
    \/ (im.w >= k /\ im.h >= k) /\ \E op \in {"resizeNtimessmaller", "pixelizenxn"} : Do(Ed(op, <<k>>), LAMBDA f :
         IF D < 24 THEN f.msg = {M_24}
         ELSE /\ Same(f)
              /\ IF op = "resizeNtimessmaller" THEN f.d.w = im.w \div k /\ f.d.h = im.h \div k
                 ELSE f.d.px = Res("resizeNtimesbigger", <<k>>, Res("resizeNtimessmaller", <<k>>, im)).px
              /\ Min({R8(v) : v \in Values(im)}) <= Min({R8(v) : v \in Values(f.d)})
              /\ Max({G8(v) : v \in Values(im)}) >= Max({G8(v) : v \in Values(f.d)})
              /\ k = 1 => f.d.px = im.px)

Next == n = 0 /\ CASE What = "C08" -> C08 [] What = "C09" -> C09 [] What = "C10" -> C10 [] What = "C11" -> C11 [] What = "C12" -> C12
Spec == Init /\ [][Next]_<<im, n>>
Good == WellFormed(im)
=============================================================================
