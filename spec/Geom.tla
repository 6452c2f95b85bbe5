-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Integer geometry of the drawing primitives.                             *)
(***************************************************************************)
EXTENDS Img

(* ---- lines ---------------------------------------------------------- *)
\* the points between p and q in order, both endpoints included
LinePt(p, q, j) ==
  LET dx == q[1] - p[1]  dy == q[2] - p[2]
      ax == Abs(dx)      ay == Abs(dy)
  IN  IF ax = ay THEN <<p[1] + Sgn(dx) * j, p[2] + Sgn(dy) * j>>
      ELSE IF ax > ay THEN <<p[1] + Sgn(dx) * j, p[2] + Sgn(dy) * (((j + 1) * ay) \div ax)>>
      ELSE <<p[1] + Sgn(dx) * (((j + 1) * ax) \div ay), p[2] + Sgn(dy) * j>>
LineLen(p, q) == Max2(Abs(q[1] - p[1]), Abs(q[2] - p[2])) + 1
\* in drawing order: one point per step, then the end point
LineSeq(p, q) == [j \in 1 .. LineLen(p, q) + 1 |->
                    IF j = LineLen(p, q) + 1 THEN <<q[1], q[2]>> ELSE LinePt(p, q, j - 1)]
LineSet(p, q) == {LinePt(p, q, j) : j \in 0 .. LineLen(p, q) - 1} \cup {<<q[1], q[2]>>}

(* ---- spans ---------------------------------------------------------- *)
HSpan(y, x1, x2) == {<<x, y>> : x \in Min2(x1, x2) .. Max2(x1, x2)}
VSpan(x, y1, y2) == {<<x, y>> : y \in Min2(y1, y2) .. Max2(y1, y2)}
RectSet(x1, y1, x2, y2) == (Min2(x1, x2) .. Max2(x1, x2)) \X (Min2(y1, y2) .. Max2(y1, y2))

\* A horizontal span of an image: the part inside of it. alt is the behaviour
\* of a recorded finding: on 4-bit bitmaps the last pixel of a span
\* whose two ends have the same parity is not painted.
ISpan(im, y, xa, xb, alt) ==
  LET x1 == Max2(Min2(xa, xb), 0)
      x2 == Min2(Max2(xa, xb), im.w - 1)
  IN  IF y < 0 \/ y >= im.h \/ x1 > x2 THEN {}
      ELSE IF alt /\ im.b = 4 /\ x2 > x1 /\ x1 % 2 = x2 % 2 THEN {<<x, y>> : x \in x1 .. x2 - 1}
      ELSE {<<x, y>> : x \in x1 .. x2}

\* line between two points, the ends first moved into the image
ILine(im, x1, y1, x2, y2, alt) ==
  LET a == Clamp(x1, 0, im.w - 1)  b == Clamp(y1, 0, im.h - 1)
      c == Clamp(x2, 0, im.w - 1)  d == Clamp(y2, 0, im.h - 1)
  IN  IF a = c THEN VSpan(a, b, d)
      ELSE IF b = d THEN ISpan(im, b, a, c, alt)
      ELSE LineSet(<<a, b>>, <<c, d>>)

ILines(im, v, alt) ==
  UNION {ILine(im, v[i][1], v[i][2], v[i + 1][1], v[i + 1][2], alt) : i \in 1 .. Len(v) - 1}
IPoly(im, v, alt) ==
  ILines(im, v, alt) \cup ILine(im, v[1][1], v[1][2], v[Len(v)][1], v[Len(v)][2], alt)

RecVert(x1, y1, x2, y2) == <<<<x1, y1>>, <<x2, y1>>, <<x2, y2>>, <<x1, y2>>>>

(* ---- polygons ------------------------------------------------------- *)
PolyEdge(v) ==
  UNION {LineSet(v[i], v[i + 1]) : i \in 1 .. Len(v) - 1} \cup LineSet(v[Len(v)], v[1])
\* every row of the boundary, from its leftmost to its rightmost point
RowsOf(S) == {p[2] : p \in S}
XsOf(S, y) == {p[1] : p \in {q \in S : q[2] = y}}
FillRow(im, y, X, alt) ==
  IF Cardinality(X) = 1 THEN {<<CHOOSE x \in X : TRUE, y>>}
  ELSE IF ~alt THEN HSpan(y, Min(X), Max(X))
  ELSE LET s == SetToSortSeq(X, <)
       IN  UNION {ISpan(im, y, s[i], s[i + 1], TRUE) : i \in 1 .. Len(s) - 1}
PolyFill(im, v, alt) ==
  LET S == TLCEval(PolyEdge(v)) IN UNION {FillRow(im, y, XsOf(S, y), alt) : y \in RowsOf(S)}
PolyInside(im, v) == \A i \in 1 .. Len(v) : InB(im, v[i][1], v[i][2])

(* ---- circles -------------------------------------------------------- *)
\* sqrt(r^2 - c^2) rounded to the nearest integer, and r itself for c = 0: the largest k with k * (k - 1) < n
RECURSIVE Below(_, _, _)
Below(n, lo, hi) ==
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2 IN IF m * (m - 1) < n THEN Below(n, m, hi) ELSE Below(n, lo, m - 1)
CRow(r, c) == IF c = 0 THEN r ELSE IF c >= r THEN 0 ELSE Below(r * r - c * c, 0, r)
\* the two octants of the first quadrant
CircPart(r) ==
  LET R == TLCEval([c \in 0 .. r |-> CRow(r, c)])
  IN  UNION {IF R[c] >= c THEN {<<c, R[c]>>, <<R[c], c>>} ELSE {} : c \in 0 .. r}
Mirror4(x, y, P) ==
  UNION {{<<x - p[1], y + p[2]>>, <<x + p[1], y + p[2]>>,
          <<x - p[1], y - p[2]>>, <<x + p[1], y - p[2]>>} : p \in P}
CircSet(x, y, r) == Mirror4(x, y, CircPart(r))
\* half width of the disc at distance k from its middle row
HalfW(r) == LET P == TLCEval(CircPart(r))
            IN  TLCEval([k \in 0 .. r |-> Max({p[1] : p \in {q \in P : q[2] = k}})])
DiscSet(im, x, y, r, alt) ==
  LET H == HalfW(r)
  IN  UNION {ISpan(im, y + k, x - H[Abs(k)], x + H[Abs(k)], alt) : k \in -r .. r}
EntireCirc(im, x, y, r) == x - r >= 0 /\ y - r >= 0 /\ x + r < im.w /\ y + r < im.h
                           /\ x + r >= 0 /\ y + r >= 0 /\ x - r < im.w /\ y - r < im.h

\* round pen: one pixel, or a disc
PenSet(im, p, rad, alt) == IF rad <= 1 THEN {<<p[1], p[2]>>} ELSE DiscSet(im, p[1], p[2], rad, alt)
DiscsSet(im, P, rad, alt) ==
  LET H == HalfW(rad)
  IN  UNION {UNION {ISpan(im, p[2] + k, p[1] - H[Abs(k)], p[1] + H[Abs(k)], alt) : k \in -rad .. rad} : p \in P}

(* ---- ellipses: horizontal semi axis a, vertical semi axis b ---------- *)
RECURSIVE Ell1(_, _, _, _, _, _), Ell2(_, _, _, _, _, _)
Ell1(a, b, col, row, d, S) ==
  IF row * a * a >= col * b * b
  THEN LET r2 == IF d >= 0 THEN row - 1 ELSE row
           d2 == (IF d >= 0 THEN d - 4 * a * a * r2 ELSE d) + 2 * b * b * (3 + 2 * col)
       IN  Ell1(a, b, col + 1, r2, d2, S \cup {<<col, row>>})
  ELSE Ell2(a, b, col, row,
            2 * b * b * (col + 1) * col + 2 * a * a * (row * (row - 2) + 1) + (1 - 2 * a * a) * b * b, S)
Ell2(a, b, col, row, d, S) ==
  IF row < 0 THEN S
  ELSE LET c2 == IF d < 0 THEN col + 1 ELSE col
           d2 == (IF d < 0 THEN d + 4 * b * b * c2 ELSE d) + 2 * a * a * (3 - 2 * row)
       IN  Ell2(a, b, c2, row - 1, d2, S \cup {<<col, row>>})
EllPart(b, a) == Ell1(a, b, 0, b, 2 * a * a * ((b - 1) * b) + a * a + 2 * b * b * (1 - a * a), {})
EllSet(x, y, b, a) == Mirror4(x, y, EllPart(b, a))
EllDisc(im, x, y, b, a, alt) ==
  UNION {ISpan(im, y + p[2], x - p[1], x + p[1], alt) \cup ISpan(im, y - p[2], x - p[1], x + p[1], alt)
           : p \in EllPart(b, a)}
=============================================================================
