------------------------------ MODULE OpsDraw ------------------------------
(***************************************************************************)
(* Pixel access and drawing of lines, rectangles, polygons, circles and    *)
(* ellipses. a is the argument sequence without the bitmap.                *)
(***************************************************************************)
EXTENDS Core

DrawOps == {"plotxybit", "plotRGBxybit", "intplotvecxypoint", "plotRGBxybitvec", "getxybit", "getRGBxybit",
  "getxybitvec", "getRGBxybitvec", "getmaxx", "getmaxy", "getmaxxy", "getmaxcolors", "bottomrightcoord", "centercoord",
  "isinBMPrectbnd", "listinBMPrecbnd", "getmaxxyandbits",
  "swapcolors", "roundpen", "plotxypointlist", "horiline", "vertline", "line", "linevec", "intlinevec",
  "plotlines", "plotpoly", "plotpolylist", "rectangle", "xygrid", "xygridvec", "vertlinevert", "horilinevert",
  "filledrect", "filledparallelogram", "plotpolyfill", "thickroundline", "thickplotpoly",
  "circle", "filledcircle", "circlevec", "thickcircle", "ellipse", "filledellipse", "plotcircinsqr"}

\* colour of filledrect: on 24 bits the colour itself, on 8 bits the palette entry
\* nearest to that colour, below that a palette index
RectColor(im, c) == IF im.b = 24 THEN c ELSE IF im.b = 8 THEN Nearest(im.pal, c) ELSE NormC(im.b, c)
\* the 4-bit line writer keeps negative colours out of scope
LineColor(im, c) == IF im.b = 24 THEN c ELSE c % (2 ^ im.b)

Pt(im, S, c) == InPlace(Paint(im, S, NormC(im.b, c)))
\* an operation whose clipped parts may report a line that is out of bounds
PtM(im, S, c) == Pt(im, S, c)
LineMsg(im, y1, y2) == IF y1 < 0 \/ y2 >= im.h THEN {M_line} ELSE {}

SwapColors(im, p, q) ==
  IF ~InB(im, p[1], p[2]) \/ ~InB(im, q[1], q[2]) THEN im
  ELSE Paint(Paint(im, {<<p[1], p[2]>>}, At(im, q[1], q[2])), {<<q[1], q[2]>>}, At(im, p[1], p[2]))

\* painted points of the whole figure; pen radii below 2 mean thin lines
ThickLines(im, v, rad, alt) ==
  UNION {DiscsSet(im, LineSet(v[i], v[i + 1]), rad, alt) : i \in 1 .. Len(v) - 1}
GridSet(im, x1, y1, x2, y2, sx, sy, alt) ==
  LET xa == Min2(x1, x2)  xb == Max2(x1, x2)  ya == Min2(y1, y2)  yb == Max2(y1, y2)
  IN  UNION {VSpan(x, ya, yb) : x \in {x \in xa .. xb - 1 : (x - xa) % sx = 0}}
      \cup UNION {ISpan(im, y, xa, xb, alt) : y \in {y \in ya .. yb - 1 : (y - ya) % sy = 0}}
ParaSet(im, p1, p2, p3, alt) ==
  LET p4 == <<p3[1] + p2[1] - p1[1], p3[2] + p2[2] - p1[2]>>
      A == LineSeq(p1, p3)
      B == LineSeq(p2, p4)
  IN  UNION {ILine(im, A[i][1], A[i][2], B[i][1], B[i][2], alt) : i \in 1 .. Len(A)}

DrawEff(e, im, alt) ==
  LET a == e.a IN
  CASE e.op = "plotxybit" -> Pt(im, {<<a[1], a[2]>>}, a[3])
    [] e.op = "intplotvecxypoint" -> Pt(im, {<<a[1][1], a[1][2]>>}, a[2])
    [] e.op = "plotRGBxybit" ->
         IF ~InB(im, a[1], a[2]) THEN InPlace(im)
         ELSE InPlace(Paint(im, {<<a[1], a[2]>>},
                IF im.b = 24 THEN Pack(a[3][1], a[3][2], a[3][3])
                ELSE Nearest(im.pal, Pack(a[3][1], a[3][2], a[3][3]))))
    [] e.op = "plotRGBxybitvec" ->
         IF ~InB(im, a[1][1], a[1][2]) THEN InPlace(im)
         ELSE InPlace(Paint(im, {<<a[1][1], a[1][2]>>},
                IF im.b = 24 THEN Pack(a[2][1], a[2][2], a[2][3])
                ELSE Nearest(im.pal, Pack(a[2][1], a[2][2], a[2][3]))))
    [] e.op = "getxybit" -> Ret(im, RInt(IF InB(im, a[1], a[2]) THEN At(im, a[1], a[2]) ELSE -1))
    [] e.op = "getxybitvec" -> Ret(im, RInt(IF InB(im, a[1][1], a[1][2]) THEN At(im, a[1][1], a[1][2]) ELSE -1))
    [] e.op = "getRGBxybit" ->
         Ret(im, RSeq(IF InB(im, a[1], a[2])
                      THEN LET c == RGBof(im, At(im, a[1], a[2])) IN <<R8(c), G8(c), B8(c)>> ELSE <<>>))
    [] e.op = "getRGBxybitvec" ->
         Ret(im, RSeq(IF InB(im, a[1][1], a[1][2])
                      THEN LET c == RGBof(im, At(im, a[1][1], a[1][2])) IN <<R8(c), G8(c), B8(c)>> ELSE <<>>))
    [] e.op = "getmaxx" -> Ret(im, RInt(im.w))
    [] e.op = "getmaxy" -> Ret(im, RInt(im.h))
    [] e.op = "getmaxxy" -> Ret(im, RSeq(<<im.w, im.h>>))
    [] e.op = "getmaxcolors" -> Ret(im, RInt(NColors(im.b)))
    [] e.op = "getmaxxyandbits" -> Ret(im, RSeq(<<<<im.w, im.h>>, im.b>>))
    [] e.op = "bottomrightcoord" -> Ret(im, RSeq(<<im.w - 1, im.h - 1>>))
    [] e.op = "centercoord" -> Ret(im, RSeq(<<(im.w - 1) \div 2, (im.h - 1) \div 2>>))
    [] e.op = "isinBMPrectbnd" -> Ret(im, RBool(InB(im, a[1], a[2])))
    [] e.op = "listinBMPrecbnd" -> Ret(im, RBool(\A i \in 1 .. Len(a[1]) : InB(im, a[1][i][1], a[1][i][2])))
    [] e.op = "swapcolors" -> InPlace(SwapColors(im, a[1], a[2]))
    [] e.op = "roundpen" -> Pt(im, PenSet(im, a[1], a[2], alt), a[3])
    [] e.op = "plotxypointlist" -> Pt(im, UNION {PenSet(im, a[1][i], a[2], alt) : i \in 1 .. Len(a[1])}, a[3])
    [] e.op = "horiline" ->
         WithMsg(Pt(im, ISpan(im, a[1], a[2], a[3], alt), a[4]), LineMsg(im, a[1], a[1]))
    [] e.op = "vertline" ->
         WithMsg(Pt(im, VSpan(a[1], a[2], a[3]), a[4]),
                 IF im.b \in {8, 24} /\ (a[1] < 0 \/ a[1] >= im.w) THEN {M_line} ELSE {})
    [] e.op = "line" -> Pt(im, ILine(im, a[1], a[2], a[3], a[4], alt), LineColor(im, a[5]))
    [] e.op \in {"linevec", "intlinevec"} ->
         Pt(im, ILine(im, a[1][1], a[1][2], a[2][1], a[2][2], alt), LineColor(im, a[3]))
    [] e.op = "plotlines" ->
         IF Len(a) < 3 \/ a[Len(a)] <= 1 THEN Pt(im, ILines(im, a[1], alt), LineColor(im, a[2]))
         ELSE Pt(im, ThickLines(im, a[1], a[3], alt), a[2])
    [] e.op = "plotpoly" -> Pt(im, IPoly(im, a[1], alt), LineColor(im, a[2]))
    [] e.op = "plotpolylist" ->
         Pt(im, UNION {IPoly(im, a[1][i], alt) : i \in 1 .. Len(a[1])}, LineColor(im, a[2]))
    [] e.op = "rectangle" -> Pt(im, IPoly(im, RecVert(a[1], a[2], a[3], a[4]), alt), LineColor(im, a[5]))
    [] e.op = "xygrid" -> GRect(im, a, 1, Pt(im, GridSet(im, a[1], a[2], a[3], a[4], a[5][1], a[5][2], alt), a[6]))
    [] e.op = "xygridvec" ->
         GRect(im, <<a[1][1], a[1][2], a[2][1], a[2][2]>>, 1,
               Pt(im, GridSet(im, a[1][1], a[1][2], a[2][1], a[2][2], a[3][1], a[3][2], alt), a[4]))
    [] e.op = "vertlinevert" ->
         Pt(im, UNION {VSpan(a[1][i][1], a[1][i][2], a[1][i][2] + a[2] + a[3]) : i \in 1 .. Len(a[1])}, a[4])
    [] e.op = "horilinevert" ->
         Pt(im, UNION {ISpan(im, a[1][i][2], a[1][i][1], a[1][i][1] + a[2] + a[3], alt) : i \in 1 .. Len(a[1])}, a[4])
    [] e.op = "filledrect" ->
         GRect(im, a, 1, InPlace(Paint(im, UNION {ISpan(im, y, a[1], a[3], alt) : y \in Min2(a[2], a[4]) .. Max2(a[2], a[4])},
                                       RectColor(im, a[5]))))
    [] e.op = "filledparallelogram" -> Pt(im, ParaSet(im, a[1], a[2], a[3], alt), LineColor(im, a[4]))
    [] e.op = "plotpolyfill" ->
         IF ~PolyInside(im, a[1]) THEN Reject(im, M_region) ELSE Pt(im, PolyFill(im, a[1], alt), a[2])
    [] e.op = "thickroundline" -> Pt(im, DiscsSet(im, LineSet(a[1], a[2]), a[3], alt), a[4])
    [] e.op = "thickplotpoly" ->
         Pt(im, ThickLines(im, a[1], a[2], alt) \cup DiscsSet(im, LineSet(a[1][1], a[1][Len(a[1])]), a[2], alt), a[3])
    [] e.op = "filledcircle" -> Pt(im, DiscSet(im, a[1], a[2], a[3], alt), a[4])
    [] e.op = "circle" ->
         IF Len(a) = 5 /\ a[5] = 1 THEN Pt(im, DiscSet(im, a[1], a[2], a[3], alt), a[4])
         ELSE Pt(im, CircSet(a[1], a[2], a[3]), a[4])
    [] e.op = "circlevec" ->
         IF Len(a) = 4 /\ a[4] = 1 THEN Pt(im, DiscSet(im, a[1][1], a[1][2], a[2], alt), a[3])
         ELSE Pt(im, CircSet(a[1][1], a[1][2], a[2]), a[3])
    [] e.op = "thickcircle" -> Pt(im, DiscsSet(im, CircSet(a[1], a[2], a[3]), a[4], alt), a[5])
    [] e.op = "filledellipse" -> Pt(im, EllDisc(im, a[1], a[2], a[3], a[4], alt), a[5])
    [] e.op = "ellipse" ->
         IF Len(a) = 6 /\ a[6] = 1 THEN Pt(im, EllDisc(im, a[1], a[2], a[3], a[4], alt), a[5])
         ELSE Pt(im, EllSet(a[1], a[2], a[3], a[4]), a[5])
\* whether an error message for the clipped parts of a figure is of interest
=============================================================================
