------------------------------ MODULE OpsMisc ------------------------------
(***************************************************************************)
(* Edges and regions found by their colour, comparison of files, erased    *)
(* lines, outlines, and circular buffers taken from one bitmap to another. *)
(***************************************************************************)
EXTENDS OpsPal

FindOps == {"getimagedgevert", "plotimgedges", "getimageregionbyRGB", "imgregionbyRGB2file", "autocropimg2file",
  "imagediff", "showsimilarparts", "cropBMPandsave", "cropBMPandsaveusingrectbnd", "pastecircfrom"}
EraseOps == {"erasealternatehorizontallines", "eraseeverynthhorizontalline", "erasealternatehorizontallinesinregion",
  "eraseeverynthhorilineinregion", "erasealternatehorizontallinesincircregion", "eraseeverynthhorizontallineinccircregion",
  "outline", "outlineregion"}
MiscOps == FindOps \cup EraseOps

M_cmp == "Error:cannot compare Files"

(* ---- edges ----------------------------------------------------------- *)
NbOrder == <<<<0, -1>>, <<0, 1>>, <<-1, -1>>, <<-1, 0>>, <<-1, 1>>, <<1, -1>>, <<1, 0>>, <<1, 1>>>>
\* the first neighbour whose colour is farther than t[1] / t[2]: P are the channels of all pixels
Sq(v) == v * v
Chan(im) == TLCEval([i \in 1 .. im.w * im.h |-> LET c == RGBof(im, im.px[i]) IN <<R8(c), G8(c), B8(c)>>])
Dist3(c, d) == Sq(c[1] - d[1]) + Sq(c[2] - d[2]) + Sq(c[3] - d[3])
EdgeNb(im, P, x, y, tn, td) ==
  LET i0 == y * im.w + x + 1
      Far(i) == LET d == NbOrder[i]
                IN  IF x + d[1] < 0 \/ x + d[1] >= im.w \/ y + d[2] < 0 \/ y + d[2] >= im.h THEN FALSE
                    ELSE Dist3(P[i0 + d[2] * im.w + d[1]], P[i0]) * td > tn
      R(i) == <<<<x + NbOrder[i][1], y + NbOrder[i][2]>>>>
  IN  IF Far(1) THEN R(1) ELSE IF Far(2) THEN R(2) ELSE IF Far(3) THEN R(3) ELSE IF Far(4) THEN R(4)
      ELSE IF Far(5) THEN R(5) ELSE IF Far(6) THEN R(6) ELSE IF Far(7) THEN R(7) ELSE IF Far(8) THEN R(8) ELSE <<>>
Edges(im, t) ==
  LET P == Chan(im)
  IN  TLCEval(FlattenSeq([i \in 1 .. im.w * im.h |->
        EdgeNb(im, P, (i - 1) % im.w, im.h - 1 - ((i - 1) \div im.w), t[1] * t[1], t[2] * t[2])]))
Region(im, c, t) ==
  FlattenSeq([i \in 1 .. im.w * im.h |->
    LET x == (i - 1) % im.w  y == im.h - 1 - ((i - 1) \div im.w)
    IN  IF Dist2(RGBof(im, At(im, x, y)), c) * t[2] * t[2] < t[1] * t[1] THEN <<<<x, y>>>> ELSE <<>>])
PlotAll(im, V, rad, c, alt) ==
  Paint(im, UNION {PenSet(im, V[i], rad, alt) : i \in 1 .. Len(V)}, NormC(im.b, c))

(* ---- comparison ------------------------------------------------------ *)
Bit(u, v, or) == IF or THEN (IF u = v THEN 0 ELSE u ^^ v) ELSE u & v
Bit3(c, d, or) == Pack(Bit(R8(c), R8(d), or), Bit(G8(c), G8(d), or), Bit(B8(c), B8(d), or))
Compared(A, B, or) ==
  LET N == [Blank(A.w, A.h, A.b) EXCEPT !.pal = A.pal]
  IN  [N EXCEPT !.px = TLCEval([i \in 1 .. Len(A.px) |->
         IF A.b = 24 THEN Bit3(A.px[i], B.px[i], or) ELSE Bit(A.px[i], B.px[i], or)])]
CmpEff(A, B, or) ==
  IF A.w = 0 \/ B.w = 0 THEN Reject(A, M_nofile)
  ELSE IF A.w # B.w \/ A.h # B.h \/ A.b # B.b THEN Reject(A, M_cmp)
  ELSE [Eff0(A) EXCEPT !.d = Compared(A, B, or)]

(* ---- erased lines ---------------------------------------------------- *)
PatAt(im, p, x) ==
  LET q == p % 256 IN
  CASE im.b = 24 -> Pack(q, q, q)
    [] im.b = 8 -> q
    [] OTHER -> (q \div 2 ^ (8 - im.b * ((x % (8 \div im.b)) + 1))) % 2 ^ im.b
EraseRect(im, x1, y1, x2, y2, n, k, p) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2)  yb == Max2(y1, y2)
  IN  Mk(im, LAMBDA x, y : IF x >= xa /\ x <= xb /\ y >= ya /\ y <= yb /\ (y - ya + 1) % n = k
                           THEN PatAt(im, p, x) ELSE At(im, x, y))
\* alt is the recorded finding of circular regions: the rows lack their last pixel
EraseCirc(im, a, n, k, p, alt) ==
  LET H == HalfW(a[3])
  IN  Mk(im, LAMBDA x, y : LET d == Abs(y - a[2]) IN
           IF d <= a[3] /\ x >= a[1] - H[d] /\ x < a[1] + H[d] + (IF alt THEN 0 ELSE 1) /\ y % n = k THEN PatAt(im, p, x) ELSE At(im, x, y))

(* ---- outlines -------------------------------------------------------- *)
XorPx(im, u, v) == IF im.b = 24 THEN Bit3(u, v, TRUE) ELSE Bit(u, v, TRUE)
Outline(im, x1, y1, x2, y2) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2)  yb == Max2(y1, y2)
  IN  Mk(im, LAMBDA x, y : IF x < xa \/ x > xb \/ y < ya \/ y > yb THEN At(im, x, y)
                           ELSE XorPx(im, At(im, x, y), At(im, x, Max2(y - 1, ya))))

(* ---- cropped files --------------------------------------------------- *)
CropFile(im, x1, y1, x2, y2) ==
  IF im.w = 0 THEN Reject(im, M_nofile)
  ELSE IF RectIn(im, x1, y1, x2, y2) THEN [Eff0(im) EXCEPT !.d = Crop(im, x1, y1, x2, y2)] ELSE Reject(im, M_region)
\* the part that has edges and one more row and column after it, as far as there are such
AutoCrop(im, t) ==
  LET E == Edges(im, t)
      X == {E[i][1] : i \in 1 .. Len(E)}
      Y == {E[i][2] : i \in 1 .. Len(E)}
  IN  CropFile(im, Min(X), Min(Y), Min2(Max(X) + 1, im.w - 1), Min2(Max(Y) + 1, im.h - 1))

\* circular part of bitmap S put into bitmap im
CircFrom(im, S, a, alt) ==
  LET r == a[3]  nx == a[4]  ny == a[5]  H == HalfW(r)
  IN  IF ~EntireCirc(S, a[1], a[2], r) THEN WithMsg(InPlace(im), {M_region, M_buf})
      ELSE IF ~EntireCirc(im, nx, ny, r) THEN Reject(im, M_region)
      ELSE IF S.b # im.b THEN Reject(im, M_bits)
      ELSE InPlace(Mk(im, LAMBDA x, y : LET k == Abs(y - ny) IN
             IF k <= r /\ x >= nx - H[k] /\ x < nx + H[k] + (IF alt THEN 0 ELSE 1) THEN At(S, x - nx + a[1], y - ny + a[2]) ELSE At(im, x, y)))

MiscEff(e, im, S2, alt) ==
  LET a == e.a IN
  CASE e.op = "getimagedgevert" -> Ret(im, RSeq(Edges(im, a[1])))
    [] e.op = "plotimgedges" -> InPlace(PlotAll(im, Edges(im, a[1]), a[2], a[3], alt))
    [] e.op = "getimageregionbyRGB" -> Ret(im, RSeq(Region(im, RGBof3(a[1]), a[2])))
    [] e.op = "imgregionbyRGB2file" ->
         IF im.w = 0 THEN Reject(im, M_nofile)
         ELSE LET B == IF a[5] = 1 THEN [im EXCEPT !.px = TLCEval([i \in 1 .. im.w * im.h |-> 0])] ELSE im
              IN  [Eff0(im) EXCEPT !.d = PlotAll(B, Region(im, RGBof3(a[3]), a[4]), a[1], a[2], alt)]
    [] e.op = "autocropimg2file" -> IF im.w = 0 THEN Reject(im, M_nofile) ELSE AutoCrop(im, a[1])
    [] e.op = "cropBMPandsave" -> CropFile(im, a[1], a[2], a[3], a[4])
    [] e.op = "cropBMPandsaveusingrectbnd" ->
         CropFile(im, a[1][1][1], a[1][1][2], a[1][2][1] + 1, a[1][2][2] + 1)
    [] e.op = "imagediff" -> CmpEff(im, S2, TRUE)
    [] e.op = "showsimilarparts" -> CmpEff(im, S2, FALSE)
    [] e.op = "pastecircfrom" -> CircFrom(im, S2, a, alt)
    [] e.op = "erasealternatehorizontallines" ->
         InPlace(EraseRect(im, 0, 0, im.w - 1, im.h - 1, a[1], a[2], a[3]))
    [] e.op = "eraseeverynthhorizontalline" -> InPlace(EraseRect(im, 0, 0, im.w - 1, im.h - 1, a[1], 0, 0))
    [] e.op = "erasealternatehorizontallinesinregion" ->
         GRect(im, a, 1, InPlace(EraseRect(im, a[1], a[2], a[3], a[4], a[5], a[6], a[7])))
    [] e.op = "eraseeverynthhorilineinregion" ->
         GRect(im, a, 1, InPlace(EraseRect(im, a[1], a[2], a[3], a[4], a[5], 0, 0)))
    [] e.op = "erasealternatehorizontallinesincircregion" -> GCirc(im, a, InPlace(EraseCirc(im, a, a[4], a[5], a[6], alt)))
    [] e.op = "eraseeverynthhorizontallineinccircregion" -> GCirc(im, a, InPlace(EraseCirc(im, a, a[4], 0, 0, alt)))
    [] e.op = "outline" -> InPlace(Outline(im, 0, 0, im.w - 1, im.h - 1))
    [] e.op = "outlineregion" -> GRect(im, a, 1, InPlace(Outline(im, a[1], a[2], a[3], a[4])))
=============================================================================
