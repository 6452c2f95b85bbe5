------------------------------- MODULE MCDraw -------------------------------
(* Pixels, lines, areas, circles and ellipses on small bitmaps. *)
EXTENDS MCBase

BoxSize == [a1 |-> <<6, 2, 1>>, a4 |-> <<4, 2, 4>>, l1 |-> <<18, 2, 1>>, l4 |-> <<7, 4, 4>>, l8 |-> <<5, 4, 8>>, l24 |-> <<5, 4, 24>>,
         t1 |-> <<13, 11, 1>>, t4 |-> <<10, 11, 4>>, t8 |-> <<9, 10, 8>>, t24 |-> <<9, 9, 24>>,
         b1 |-> <<10, 2, 1>>, b4 |-> <<5, 3, 4>>, b8 |-> <<3, 3, 8>>, b24 |-> <<3, 3, 24>>,
         p1 |-> <<9, 2, 1>>, p4 |-> <<5, 2, 4>>, p8 |-> <<4, 2, 8>>, p24 |-> <<3, 2, 24>>,
         s1 |-> <<9, 9, 1>>, s4 |-> <<7, 8, 4>>, s8 |-> <<7, 6, 8>>, s24 |-> <<6, 7, 24>>][IOEnv.MCSIZE]
W == BoxSize[1]
H == BoxSize[2]
D == BoxSize[3]
Init == n = 0 /\ im = (IF What = "C03" THEN Distinct(W, H, D) ELSE Blank(W, H, D))

Same(f) == f.s = im
T(f) == TRUE

(* ---- C03: pixels ----------------------------------------------------- *)
Values == {0, 1, NColors(D) - 1} \cup (IF D = 24 THEN {66051} ELSE {NColors(D), 5})
SomeRGB == {<<0, 0, 0>>, <<255, 255, 255>>, <<1, 2, 3>>, <<200, 10, 30>>, <<128, 128, 128>>, <<0, 0, 170>>}
Put(p, v, f) == \A q \in QQ : At(f.s, q[1], q[2]) = (IF q = p THEN v ELSE At(im, q[1], q[2]))
C03 ==
  \/ \E p \in PP, c \in Values :
       \/ Do(E1("plotxybit", <<p[1], p[2], c>>), LAMBDA f : IF In(p) THEN Put(p, NormC(D, c), f) ELSE Same(f))
       \/ Do(E1("intplotvecxypoint", <<p, c>>), LAMBDA f : f.s = Res("plotxybit", <<p[1], p[2], c>>, im))
  \/ \E p \in PP, c \in SomeRGB :
       \/ Do(E1("plotRGBxybit", <<p[1], p[2], c>>), LAMBDA f :
            IF ~In(p) THEN Same(f)
            ELSE /\ \A q \in QQ : q # p => At(f.s, q[1], q[2]) = At(im, q[1], q[2])
                 /\ LET v == RGBof(im, At(f.s, p[1], p[2])) t == Pack(c[1], c[2], c[3])
                    IN  IF D = 24 THEN v = t ELSE v = 0 \/ \A i \in 1 .. Len(im.pal) : im.pal[i] = 0 \/ Dist2(im.pal[i], t) >= Dist2(v, t))
       \/ Do(E1("plotRGBxybitvec", <<p, c>>), LAMBDA f : f.s = Res("plotRGBxybit", <<p[1], p[2], c>>, im))
  \/ \E p \in PP :
       \/ \E o \in {"getxybit", "getRGBxybit", "isinBMPrectbnd"} : Do(E1(o, <<p[1], p[2]>>), Same)
       \/ \E o \in {"getxybitvec", "getRGBxybitvec"} : Do(E1(o, <<p>>), Same)
  \/ \E p \in PP, q \in PP :
       Do(E1("swapcolors", <<p, q>>), LAMBDA f :
          IF ~In(p) \/ ~In(q) THEN Same(f)
                       ELSE /\ At(f.s, p[1], p[2]) = At(im, q[1], q[2]) /\ At(f.s, q[1], q[2]) = At(im, p[1], p[2])
                            /\ Res("swapcolors", <<p, q>>, f.s) = im
                            /\ Painted(f) \subseteq {p, q})

(* ---- C04: lines ------------------------------------------------------ *)
\* points of a line: both ends, one point per step of the longer axis, never a pixel or more off the line
IsLine(P, p, q) ==
  LET dx == q[1] - p[1]  dy == q[2] - p[2]  m == Max2(Abs(dx), Abs(dy)) IN
  /\ p \in P /\ q \in P /\ P \subseteq Box(p, q) /\ Cardinality(P) = m + 1
  /\ IF Abs(dx) >= Abs(dy) THEN \A x \in Min2(p[1], q[1]) .. Max2(p[1], q[1]) : Cardinality(Column(P, x)) = 1
     ELSE \A y \in Min2(p[2], q[2]) .. Max2(p[2], q[2]) : Cardinality(RowIn(P, y)) = 1
  /\ \A t \in P : m = 0 \/ Abs((t[2] - p[2]) * dx - (t[1] - p[1]) * dy) < m
Clip(p) == <<Clamp(p[1], 0, im.w - 1), Clamp(p[2], 0, im.h - 1)>>
LinePx(p, q) == LET f == Run(E1("line", <<p[1], p[2], q[1], q[2], 1>>), im) IN Painted(f)
C04 ==
  \/ \E p \in PP, q \in PP :
       \/ Do(E1("line", <<p[1], p[2], q[1], q[2], 1>>), LAMBDA f : IsLine(Painted(f), Clip(p), Clip(q)))
       \/ p[2] = q[2] /\ Do(E1("horiline", <<p[2], p[1], q[1], 1>>), LAMBDA f : Painted(f) = Box(p, q) \cap QQ)
       \/ p[1] = q[1] /\ Do(E1("vertline", <<p[1], p[2], q[2], 1>>), LAMBDA f : Painted(f) = Box(p, q) \cap QQ)
       \/ Do(E1("rectangle", <<p[1], p[2], q[1], q[2], 1>>), LAMBDA f :
            LET a == Clip(p) c == Clip(q) IN
            Painted(f) = {t \in Box(a, c) : t[1] \in {a[1], c[1]} \/ t[2] \in {a[2], c[2]}})
  \/ \E p \in PP, q \in QQ, s \in (1 .. 3) \X (1 .. 2) :
       (In(p) \/ (q = <<0, 0>> /\ s = <<1, 1>>)) /\
       Do(E1("xygrid", <<p[1], p[2], q[1], q[2], s, 1>>), LAMBDA f :
          IF ~In(p) THEN Same(f)
          ELSE LET x0 == Min2(p[1], q[1]) y0 == Min2(p[2], q[2]) x1 == Max2(p[1], q[1]) y1 == Max2(p[2], q[2]) IN
               Painted(f) = {t \in Box(p, q) : (t[1] < x1 /\ (t[1] - x0) % s[1] = 0) \/ (t[2] < y1 /\ (t[2] - y0) % s[2] = 0)})
  \/ im.w < 5 /\ \E p \in QQ, q \in QQ, r \in QQ :
       Do(E1("plotpoly", <<<<p, q, r>>, 1>>), LAMBDA f :
          LET A == LinePx(p, q) B == LinePx(q, r) IN
          /\ A \cup B \subseteq Painted(f) /\ IsLine(LinePx(p, r), p, r) /\ Painted(f) = A \cup B \cup LinePx(p, r))

(* ---- C05: areas ------------------------------------------------------ *)
C05 ==
  \/ \E p \in PP, q \in PP :
       Do(E1("filledrect", <<p[1], p[2], q[1], q[2], 1>>), LAMBDA f :
          IF In(p) /\ In(q) THEN OK(f) /\ Painted(f) = Box(p, q) ELSE f.msg = {M_region} /\ Same(f))
  \/ \E p \in QQ, q \in QQ, r \in PP :
       \/ Do(E1("plotpolyfill", <<<<p, q, r>>, 1>>), LAMBDA f :
            IF ~In(r) THEN f.msg = {M_region} /\ Same(f)
            ELSE LET P == Painted(f) IN
                 /\ {p, q, r} \subseteq P /\ LineSet(p, q) \cup LineSet(q, r) \subseteq P
                 /\ \A y \in Rows(im) : Gapless(RowIn(P, y))
                 /\ P \subseteq Hull({p, q, r})
                 /\ f.s = Res("plotpolyfill", <<<<q, r, p>>, 1>>, im))
       \/ Do(E1("filledparallelogram", <<p, q, r, 1>>), LAMBDA f :
            LET P == Painted(f) o == <<r[1] + q[1] - p[1], r[2] + q[2] - p[2]>> IN
            /\ {p, q} \subseteq P
            /\ In(r) => r \in P
            /\ In(r) /\ In(o) => /\ LineSet(p, q) \cup LineSet(r, o) \cup LineSet(p, r) \cup LineSet(q, o) \subseteq P
                                 /\ P \subseteq Hull({p, q, r, o}))

(* ---- C06: circles ---------------------------------------------------- *)
Wide == ((-2) .. (im.w + 1)) \X ((-2) .. (im.h + 1))
Symmetric(P, c) == /\ \A p \in P : <<2 * c[1] - p[1], p[2]>> \in P /\ <<p[1], 2 * c[2] - p[2]>> \in P
Swapped(P, c) == \A p \in P : <<c[1] + (p[2] - c[2]), c[2] + (p[1] - c[1])>> \in P
Fits(c, a, b) == c[1] - a >= 0 /\ c[2] - b >= 0 /\ c[1] + a < im.w /\ c[2] + b < im.h
\* what is painted outside of the bitmap is lost, and nothing else: the same figure on a big bitmap, cut out
Big == Blank(im.w + 16, im.h + 16, im.b)
CutOf(f, op, a) ==
  LET B == Res(op, a, Big) IN \A p \in QQ : At(f.s, p[1], p[2]) = At(B, p[1] + 8, p[2] + 8)
C06 ==
  \/ \E c \in Wide, r \in 0 .. 4 :
       \/ Do(E1("circle", <<c[1], c[2], r, 1>>), LAMBDA f :
            LET P == Painted(f) IN
            /\ \A p \in P : Abs((p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2]) - r * r) <= r
            /\ Fits(c, r, r) => Symmetric(P, c) /\ Swapped(P, c) /\ <<c[1] + r, c[2]>> \in P /\ (r > 0 => Cardinality(P) >= 4 * r)
            /\ CutOf(f, "circle", <<c[1] + 8, c[2] + 8, r, 1>>))
       \/ Do(E1("filledcircle", <<c[1], c[2], r, 1>>), LAMBDA f :
            LET P == Painted(f) Rim == Painted(Run(E1("circle", <<c[1], c[2], r, 1>>), im)) IN
            /\ Rim \subseteq P /\ (In(c) => c \in P)
            /\ \A y \in Rows(im) : Gapless(RowIn(P, y))
            /\ Fits(c, r, r) => Symmetric(P, c)
            /\ P \subseteq Painted(Run(E1("filledcircle", <<c[1], c[2], r + 1, 1>>), im))
            /\ \A p \in QQ : (p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2]) <= r * r - r => p \in P
            /\ \A p \in P : (p[1] - c[1]) * (p[1] - c[1]) + (p[2] - c[2]) * (p[2] - c[2]) <= r * r + r
            /\ CutOf(f, "filledcircle", <<c[1] + 8, c[2] + 8, r, 1>>))
       \/ Do(E1("roundpen", <<c, r, 1>>), LAMBDA f : Painted(f) = (IF r <= 1 THEN {c} \cap QQ ELSE Painted(Run(E1("filledcircle", <<c[1], c[2], r, 1>>), im))))
  \/ \E c \in QQ, r \in 1 .. 3, t \in 2 .. 3 :
       Do(E1("thickcircle", <<c[1], c[2], r, t, 1>>), LAMBDA f :
          /\ Painted(Run(E1("circle", <<c[1], c[2], r, 1>>), im)) \subseteq Painted(f)
          /\ Fits(c, r + t, r + t) => Symmetric(Painted(f), c) /\ Swapped(Painted(f), c))
  \/ im.h < 5 /\ \E p \in PP, q \in PP, t \in 1 .. 2 :
       Do(E1("thickroundline", <<p, q, t, 1>>), LAMBDA f :
          /\ LineSet(p, q) \cap QQ \subseteq Painted(f)
          /\ \A s \in Painted(f) : \E l \in LineSet(p, q) : (l[1] - s[1]) * (l[1] - s[1]) + (l[2] - s[2]) * (l[2] - s[2]) <= t * t + t)

(* ---- C07: ellipses --------------------------------------------------- *)
C07 ==
  \E c \in Wide, b \in 1 .. 4, a \in 1 .. 4 :
    \/ Do(E1("ellipse", <<c[1], c[2], b, a, 1>>), LAMBDA f :
         LET P == Painted(f) IN
         /\ P \subseteq Box(<<c[1] - a, c[2] - b>>, <<c[1] + a, c[2] + b>>)
         /\ Fits(c, a, b) => /\ Symmetric(P, c)
                             /\ <<c[1], c[2] + b>> \in P
                             \* the tips of very flat ellipses lack pixels in the midpoint construction
                             /\ a <= 3 * b => <<c[1] + a, c[2]>> \in P
                             /\ a <= 3 * b => \A x \in c[1] - a .. c[1] + a : Column(P, x) # {}
                             /\ \A y \in c[2] - b .. c[2] + b : RowIn(P, y) # {}
         /\ CutOf(f, "ellipse", <<c[1] + 8, c[2] + 8, b, a, 1>>))
    \/ Do(E1("filledellipse", <<c[1], c[2], b, a, 1>>), LAMBDA f :
         LET P == Painted(f) L == Painted(Run(E1("ellipse", <<c[1], c[2], b, a, 1>>), im)) IN
         /\ L \subseteq P /\ (In(c) => c \in P)
         /\ \A y \in Rows(im) : Gapless(RowIn(P, y))
         /\ Fits(c, a, b) => Symmetric(P, c)
         /\ CutOf(f, "filledellipse", <<c[1] + 8, c[2] + 8, b, a, 1>>))

Next == n = 0 /\ CASE What = "C03" -> C03 [] What = "C04" -> C04 [] What = "C05" -> C05 [] What = "C06" -> C06 [] What = "C07" -> C07
Spec == Init /\ [][Next]_<<im, n>>
Good == WellFormed(im)
=============================================================================
