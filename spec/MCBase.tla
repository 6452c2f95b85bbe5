------------------------------- MODULE MCBase -------------------------------
(***************************************************************************)
(* The system as a state machine on one bitmap: from every image of a      *)
(* small universe, every operation with every argument of a small box.     *)
(* What the properties promise is asserted of every transition; the        *)
(* transitions are printed, and the harness performs each of them on the   *)
(* real library (environment variable GEN).                                *)
(***************************************************************************)
EXTENDS Ops, Json, IOUtils

Gen == IOEnv.GEN = "1"
What == IOEnv.MCWHAT
VARIABLES im, n

Ev(op, a, s, d, s2) == [op |-> op, a |-> a, s |-> s, d |-> d, s2 |-> s2, kf |-> "", ret |-> None, msg |-> <<>>]
E1(op, a) == Ev(op, a, 1, 0, 0)
Ed(op, a) == Ev(op, a, 1, 2, 0)
\* from a file to a file
Ef(op, a) == Ev(op, a, 9, 11, 0)
\* the effect on bitmap m, a second bitmap being m2
Run2(e, m, m2) ==
  LET S == TLCEval([k \in 1 .. 13 |-> IF k = e.s THEN m ELSE IF k \in {e.s2, e.d} THEN m2 ELSE NoImg]) IN Eff(e, S, S, FALSE)
Run(e, m) == Run2(e, m, NoImg)
\* the image an operation on m leaves or makes
Res(op, a, m) == LET f == Run(E1(op, a), m) IN IF f.d = NoImg THEN f.s ELSE f.d
OK(f) == f.msg = {}

\* every step: the images are well formed, a rejected operation changes nothing,
\* dimensions of the bitmap worked on stay, and so does the palette except for palette operations
Always(e, f) ==
  /\ WellFormed(f.s)
  /\ f.d = NoImg \/ WellFormed(f.d)
  /\ f.msg \ {M_line} # {} => f.s = im /\ f.d = NoImg
  /\ f.s.w = im.w /\ f.s.h = im.h /\ f.s.b = im.b
  /\ e.op \notin PalOps => f.s.pal = im.pal
  /\ e.op \in PalOps => f.s.px = im.px

Show(m) == IF m = NoImg THEN [w |-> 0]
           ELSE [w |-> m.w, h |-> m.h, b |-> m.b, px |-> m.px, pal |-> IF m.pal = DefaultPal(m.b) THEN <<>> ELSE m.pal]
\* the transition by event e, of which L is asserted
Do2(e, m2, L(_)) ==
  LET f == TLCEval(Run2(e, im, m2)) IN
  /\ Assert(Always(e, f) /\ L(f), <<"LEMMA", e.op, e.a, im>>)
  /\ (Gen => PrintT(<<"STEP", ToJson([im |-> Show(im), m2 |-> Show(m2), op |-> e.op, a |-> e.a, s |-> e.s, d |-> e.d, s2 |-> e.s2])>>))
  /\ im' = IF f.d = NoImg THEN f.s ELSE f.d
  /\ n' = n + 1
Do(e, L(_)) == Do2(e, NoImg, L)

Picture(w, h, b, Px(_)) == [Blank(w, h, b) EXCEPT !.px = [i \in 1 .. w * h |-> Px(i) % NColors(b)]]
\* pixels that all differ (as far as the depth allows)
Distinct(w, h, b) == Picture(w, h, b, LAMBDA i : IF b = 24 THEN i * 65793 + i * i ELSE i)
\* one pixel set: any rearrangement of 1-bit pixels shows on these
Units(w, h, b) == {Picture(w, h, b, LAMBDA i : IF i = k THEN 1 ELSE 0) : k \in 1 .. w * h}

Painted(f) == {<<x, y>> \in Cols(im) \X Rows(im) : At(f.s, x, y) # At(im, x, y)}
Box(p, q) == RectSet(p[1], p[2], q[1], q[2])
In(p) == InB(im, p[1], p[2])
XX == -1 .. im.w
YY == -1 .. im.h
PP == XX \X YY
QQ == Cols(im) \X Rows(im)
Hull(S) == LET X == {p[1] : p \in S} Y == {p[2] : p \in S} IN (Min(X) .. Max(X)) \X (Min(Y) .. Max(Y))
RowIn(S, y) == {p[1] : p \in {q \in S : q[2] = y}}
Column(S, x) == {p[2] : p \in {q \in S : q[1] = x}}
Gapless(X) == X = {} \/ Cardinality(X) = Max(X) - Min(X) + 1
=============================================================================
