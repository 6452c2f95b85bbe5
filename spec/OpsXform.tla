----------------------------- MODULE OpsXform -----------------------------
(***************************************************************************)
(* Flips, mirrors and inversion of whole bitmaps, rectangular and circular *)
(* regions; copying, pasting, cropping; resizing and pixelizing.           *)
(***************************************************************************)
EXTENDS OpsNew

\* horizontal and vertical part of each transform:
\* "F" reverses, "lo" copies the low half to the high half, "hi" the other way
HV == [flipvertical |-> <<"id", "F">>, fliphorizontal |-> <<"F", "id">>,
       mirrortop |-> <<"id", "lo">>, mirrorbottom |-> <<"id", "hi">>,
       mirrorleft |-> <<"lo", "id">>, mirrorright |-> <<"hi", "id">>,
       mirrortopleft |-> <<"lo", "lo">>, mirrortopright |-> <<"hi", "lo">>,
       mirrorbottomleft |-> <<"lo", "hi">>, mirrorbottomright |-> <<"hi", "hi">>]
RegionHV == [flipverticalregion |-> <<"id", "F">>, fliphorizontalregion |-> <<"F", "id">>,
       mirrortopinregion |-> <<"id", "lo">>, mirrorbottominregion |-> <<"id", "hi">>,
       mirrorleftinregion |-> <<"lo", "id">>, mirrorrightinregion |-> <<"hi", "id">>,
       mirrortopleftinregion |-> <<"lo", "lo">>, mirrortoprightinregion |-> <<"hi", "lo">>,
       mirrorbottomleftinregion |-> <<"lo", "hi">>, mirrorbottomrightinregion |-> <<"hi", "hi">>,
       fliphorzontalpixelbased |-> <<"F", "id">>, fliphverticalalpixelbased |-> <<"id", "F">>]
CircHV == [flipvertcircregion |-> <<"F">>, mirrortopincircregion |-> <<"lo">>, mirrorbottomincircregion |-> <<"hi">>]
CircHH == [fliphoricircregion |-> <<"F">>, mirrorleftincircregion |-> <<"lo">>, mirrorrightincircregion |-> <<"hi">>]
CircCorner == [mirrortopleftincircregion |-> <<"lo", "lo">>, mirrortoprightincircregion |-> <<"hi", "lo">>,
       mirrorbottomleftincircregion |-> <<"lo", "hi">>, mirrorbottomrightincircregion |-> <<"hi", "hi">>]

WholeOps == DOMAIN HV \cup {"invertimagebits", "flipXY"}
RegionOps == DOMAIN RegionHV \cup {"invertregion"}
CircOps == DOMAIN CircHV \cup DOMAIN CircHH \cup DOMAIN CircCorner
           \cup {"flipXYcircregion", "copycircregion", "invertbitsincircregion", "outlinecircregion", "magnifyNtimescircregion",
                 "pixelizenxncircregion"}
CopyOps == {"crop", "copyrect", "pasterect", "convertselection2BMP", "itercopyrect", "vertBMPbitBLTget"}
SizeOps == {"resizeNtimesbigger", "resizeNtimessmaller", "pixelizenxn"}
XformOps == WholeOps \cup RegionOps \cup CircOps \cup CopyOps \cup SizeOps

\* the coordinate that ends up at v, in the range lo..hi
Src(kind, lo, hi, v) ==
  LET m == lo + hi - v IN
  CASE kind = "F" -> m
    [] kind = "lo" -> IF v > m THEN m ELSE v
    [] kind = "hi" -> IF v < m THEN m ELSE v
    [] OTHER -> v

RegionMap(im, x1, y1, x2, y2, hv) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2)  yb == Max2(y1, y2)
  IN  Mk(im, LAMBDA x, y : IF x < xa \/ x > xb \/ y < ya \/ y > yb THEN At(im, x, y)
                           ELSE At(im, Src(hv[1], xa, xb, x), Src(hv[2], ya, yb, y)))
Inv(im, v) == NColors(im.b) - 1 - v

(* ---- circular regions ------------------------------------------------ *)
\* the disc of a circular region operation, clipped to the bitmap. alt is a recorded finding:
\* the rows lack their last pixel
InDisc(im, H, a, x, y, alt) ==
  LET k == Abs(y - a[2])
  IN  k <= a[3] /\ x >= a[1] - H[k] /\ (IF alt THEN x < Min2(a[1] + H[k], im.w - 1) ELSE x <= a[1] + H[k])
OnDisc(im, a, alt, F(_, _)) ==
  LET H == HalfW(a[3])
  IN  Mk(im, LAMBDA x, y : IF InDisc(im, H, a, x, y, alt) THEN F(x, y) ELSE At(im, x, y))
\* half height of the columns of a disc; the recorded finding takes the lowest point of the
\* circle in the outer columns
VHalf(r, alt) ==
  IF ~alt THEN HalfW(r)
  ELSE LET R == TLCEval([c \in 0 .. r |-> CRow(r, c)])
       IN  TLCEval([k \in 0 .. r |-> LET C == {c \in 0 .. k - 1 : R[c] = k} IN IF C # {} THEN Min(C) ELSE R[k]])
CircV(im, a, k, alt) == OnDisc(im, a, alt, LAMBDA x, y : At(im, x, Src(k, a[2], a[2], y)))
CircH(im, a, k, alt) ==
  LET V == VHalf(a[3], alt)
  IN  Mk(im, LAMBDA x, y : IF Abs(x - a[1]) <= a[3] /\ Abs(y - a[2]) <= V[Abs(x - a[1])]
                           THEN At(im, Src(k, a[1], a[1], x), y) ELSE At(im, x, y))
CirV(im, a, k, alt) == GCirc(im, a, InPlace(CircV(im, a, k, alt)))
CirH(im, a, k, alt) == G824Circ(im, a, InPlace(CircH(im, a, k, alt)))
CircXY(im, a) ==
  IF im.b >= 8
  THEN LET H == HalfW(a[3])
       IN  Mk(im, LAMBDA x, y : IF Abs(y - a[2]) <= a[3] /\ Abs(x - a[1]) <= H[Abs(y - a[2])]
                                THEN At(im, a[1] + (y - a[2]), a[2] - (x - a[1])) ELSE At(im, x, y))
  ELSE OnDisc(im, a, FALSE, LAMBDA x, y : At(im, a[1] + (y - a[2]), a[2] + (x - a[1])))
CopyCirc(im, a, alt) ==
  LET r == a[3]  nx == a[4][1]  ny == a[4][2]  H == HalfW(a[3])
  IN  IF ~EntireCirc(im, a[1], a[2], r) THEN WithMsg(InPlace(im), {M_region, M_buf})
      ELSE IF ~EntireCirc(im, nx, ny, r) THEN Reject(im, M_region)
      ELSE InPlace(Mk(im, LAMBDA x, y : LET k == Abs(y - ny) IN
             IF k <= r /\ x >= nx - H[k] /\ x < nx + H[k] + (IF alt THEN 0 ELSE 1) THEN At(im, x - nx + a[1], y - ny + a[2]) ELSE At(im, x, y)))
XorC(c, d) ==
  LET X(u, v) == IF u = v THEN 0 ELSE u ^^ v
  IN  Pack(X(R8(c), R8(d)), X(G8(c), G8(d)), X(B8(c), B8(d)))
\* the last pixel of a row has no right neighbour
Outl(im, a) == OnDisc(im, a, TRUE, LAMBDA x, y : XorC(At(im, x, y), At(im, x + 1, y)))

(* ---- resizing -------------------------------------------------------- *)
\* sum / m rounded to the nearest integer, ties to the even one
RoundDiv(s, m) ==
  LET q == s \div m  t == 2 * (s % m)
  IN  IF t < m THEN q ELSE IF t > m THEN q + 1 ELSE IF q % 2 = 0 THEN q ELSE q + 1
\* mean colour of the n x n block that becomes pixel X, Y; blocks are counted from the bottom row
Block(im, n, X, Y) ==
  LET y0 == (im.h % n) + Y * n
      P == [i \in 1 .. n * n |-> At(im, X * n + ((i - 1) % n), y0 + ((i - 1) \div n))]
      S(F(_)) == FoldLeft(LAMBDA acc, c : acc + F(c), 0, P)
  IN  Pack(RoundDiv(S(R8), n * n), RoundDiv(S(G8), n * n), RoundDiv(S(B8), n * n))
Fresh(im) == [im EXCEPT !.hx = NewHx]
Smaller(im, n) == MkDim(Fresh(im), im.w \div n, im.h \div n, LAMBDA x, y : Block(im, n, x, y))
Bigger(im, n) == MkDim(Fresh(im), im.w * n, im.h * n, LAMBDA x, y : At(im, x \div n, y \div n))
Pixelize(im, n) == Bigger(Smaller(im, n), n)

(* ---- copying --------------------------------------------------------- *)
Crop(im, x1, y1, x2, y2) ==
  LET xa == Min2(x1, x2)  ya == Min2(y1, y2)
  IN  MkDim(Fresh(im), Abs(x2 - x1) + 1, Abs(y2 - y1) + 1, LAMBDA x, y : At(im, xa + x, ya + y))
\* the pixels of a row as bytes, the last byte filled up with zero bits
RowBuf(im, y, x1, x2) ==
  LET n == x2 - x1 + 1 IN
  CASE im.b = 24 -> [i \in 1 .. 3 * n |-> LET c == At(im, x1 + (i - 1) \div 3, y)
                                           IN  CASE i % 3 = 1 -> B8(c) [] i % 3 = 2 -> G8(c) [] OTHER -> R8(c)]
    [] im.b = 8 -> [i \in 1 .. n |-> At(im, x1 + i - 1, y)]
    [] OTHER -> LET p == 8 \div im.b
                    V(i) == IF x1 + i <= x2 THEN At(im, x1 + i, y) ELSE 0
                IN  [i \in 1 .. (n + p - 1) \div p |->
                       FoldLeft(LAMBDA acc, j : acc * 2 ^ im.b + V((i - 1) * p + j), 0, [j \in 1 .. p |-> j - 1])]
RowBufs(im, x1, y1, x2, y2) ==
  [j \in 1 .. y2 - y1 + 1 |-> RowBuf(im, y2 - j + 1, x1, x2)]
Lo(n) == n % 256
Hi(n) == (n \div 256) % 256
CopyBuf(im, x1, y1, x2, y2) ==
  LET R == RowBufs(im, x1, y1, x2, y2)
      n == Len(R[1])
  IN  <<im.b, Lo(x2 - x1), Hi(x2 - x1), Lo(y2 - y1), Hi(y2 - y1), Lo(n), Hi(n)>> \o FlattenSeq(R)
BufW(f) == f[2] + 256 * f[3] + 1
BufH(f) == f[4] + 256 * f[5] + 1
\* pixel x, y (from the top left) of a buffer
BufAt(f, x, y) ==
  LET rb == f[6] + 256 * f[7]
      o == 7 + (BufH(f) - 1 - y) * rb
  IN  CASE f[1] = 24 -> Pack(f[o + 3 * x + 3], f[o + 3 * x + 2], f[o + 3 * x + 1])
        [] f[1] = 8 -> f[o + x + 1]
        [] OTHER -> LET p == 8 \div f[1]
                    IN  (f[o + x \div p + 1] \div 2 ^ (8 - f[1] * ((x % p) + 1))) % 2 ^ f[1]
Paste(im, f, x1, y1) ==
  Mk(im, LAMBDA x, y : IF x >= x1 /\ x < x1 + BufW(f) /\ y >= y1 /\ y < y1 + BufH(f)
                       THEN BufAt(f, x - x1, y - y1) ELSE At(im, x, y))

Then(E1, F(_)) == LET E2 == F(E1.s) IN [E2 EXCEPT !.msg = E1.msg \cup E2.msg]

XformEff(e, im, alt) ==
  LET a == e.a IN
  CASE e.op \in DOMAIN HV -> InPlace(RegionMap(im, 0, 0, im.w - 1, im.h - 1, HV[e.op]))
    [] e.op = "invertimagebits" -> InPlace(Mk(im, LAMBDA x, y : Inv(im, At(im, x, y))))
    [] e.op = "flipXY" ->
         New(im, IF im.b >= 8
                 THEN MkDim(Fresh(im), im.h, im.w, LAMBDA x, y : At(im, im.w - 1 - y, im.h - 1 - x))
                 ELSE MkDim(Fresh(im), im.h, im.w, LAMBDA x, y : At(im, y, x)))
    [] e.op \in DOMAIN RegionHV -> GRect(im, a, 1, InPlace(RegionMap(im, a[1], a[2], a[3], a[4], RegionHV[e.op])))
    [] e.op = "invertregion" ->
         GRect(im, a, 1, InPlace(Mk(im, LAMBDA x, y :
            IF x >= Min2(a[1], a[3]) /\ x <= Max2(a[1], a[3]) /\ y >= Min2(a[2], a[4]) /\ y <= Max2(a[2], a[4])
            THEN Inv(im, At(im, x, y)) ELSE At(im, x, y))))
    [] e.op \in DOMAIN CircHV -> CirV(im, a, CircHV[e.op][1], alt)
    [] e.op \in DOMAIN CircHH -> CirH(im, a, CircHH[e.op][1], alt)
    [] e.op \in DOMAIN CircCorner ->
         G824Circ(im, a, Then(CirH(im, a, CircCorner[e.op][1], alt), LAMBDA m : CirV(m, a, CircCorner[e.op][2], alt)))
    [] e.op = "flipXYcircregion" -> GCirc(im, a, InPlace(CircXY(im, a)))
    [] e.op = "copycircregion" -> CopyCirc(im, a, alt)
    [] e.op = "invertbitsincircregion" -> InPlace(OnDisc(im, a, alt, LAMBDA x, y : Inv(im, At(im, x, y))))
    [] e.op = "outlinecircregion" -> InPlace(Outl(im, a))
    [] e.op = "magnifyNtimescircregion" ->
         G24Circ(im, a, InPlace(OnDisc(im, a, alt, LAMBDA x, y :
           At(im, (a[1] * a[4] + x - a[1]) \div a[4], (a[2] * a[4] + y - a[2]) \div a[4]))))
    [] e.op = "pixelizenxncircregion" ->
         G24Circ(im, a, LET P == Pixelize(im, a[4])
                        IN  InPlace(OnDisc(im, a, alt, LAMBDA x, y : IF x < P.w /\ y < P.h THEN At(P, x, y) ELSE At(im, x, y))))
    [] e.op = "crop" -> GRect(im, a, 1, New(im, Crop(im, a[1], a[2], a[3], a[4])))
    [] e.op = "copyrect" ->
         GRect(im, a, 1, Ret(im, RSeq(CopyBuf(im, Min2(a[1], a[3]), Min2(a[2], a[4]), Max2(a[1], a[3]), Max2(a[2], a[4])))))
    [] e.op = "itercopyrect" ->
         GRect(im, a, 1, Ret(im, RSeq(RowBufs(im, Min2(a[1], a[3]), Min2(a[2], a[4]), Max2(a[1], a[3]), Max2(a[2], a[4])))))
    [] e.op = "vertBMPbitBLTget" ->
         Ret(im, RSeq(LET ya == Max2(Min2(a[2], a[3]), 0)  yb == Min2(Max2(a[2], a[3]), im.h - 1)
                      IN  FlattenSeq([j \in 1 .. yb - ya + 1 |-> RowBuf(im, yb - j + 1, a[1], a[1])])))
    [] e.op = "pasterect" ->
         IF a[1][1] # im.b THEN Reject(im, M_bits)
         ELSE IF ~RectIn(im, a[2], a[3], a[2] + BufW(a[1]) - 1, a[3] + BufH(a[1]) - 1) THEN Reject(im, M_region)
         ELSE InPlace(Paste(im, a[1], a[2], a[3]))
    [] e.op = "convertselection2BMP" ->
         IF a[1][1] \notin {1, 4, 8, 24} THEN [Reject(im, M_buf) EXCEPT !.ret = RInt(-1)]
         ELSE New(im, Paste(Blank(BufW(a[1]), BufH(a[1]), a[1][1]), a[1], 0, 0))
    [] e.op = "resizeNtimesbigger" -> New(im, Bigger(im, a[1]))
    [] e.op = "resizeNtimessmaller" -> G24(im, New(im, Smaller(im, a[1])))
    [] e.op = "pixelizenxn" -> G24(im, New(im, Pixelize(im, a[1])))
=============================================================================
