--------------------------------- MODULE Cplx ---------------------------------
(***************************************************************************)
(* Complex numbers <<re, im>> over Dbl.                                    *)
(***************************************************************************)
EXTENDS Dbl

C(x, y) == <<F(x), F(y)>>
C0 == C(0, 0)
C1 == C(1, 0)
CAdd(z, w) == <<FAdd(z[1], w[1]), FAdd(z[2], w[2])>>
CSub(z, w) == <<FSub(z[1], w[1]), FSub(z[2], w[2])>>
CMul(z, w) == <<FSub(FMul(z[1], w[1]), FMul(z[2], w[2])), FAdd(FMul(z[1], w[2]), FMul(z[2], w[1]))>>
CScale(z, k) == <<FMul(z[1], k), FMul(z[2], k)>>
CConj(z) == <<z[1], FNeg(z[2])>>
CAbs(z) == FHypot(z[1], z[2])
CNorm(z) == FAdd(FMul(z[1], z[1]), FMul(z[2], z[2]))
CArg(z) == FAtan2(z[2], z[1])
CIs0(z) == FEq(z[1], F(0)) /\ FEq(z[2], F(0))
CDiv(z, w) == LET n == CNorm(w) p == CMul(z, CConj(w)) IN <<FDiv(p[1], n), FDiv(p[2], n)>>
CPolar(r, t) == <<FMul(r, FCos(t)), FMul(r, FSin(t))>>
CExp(z) == CPolar(FExp(z[1]), z[2])
CNaN == LET n == FDiv(F(0), F(0)) IN <<n, n>>
\* z to the power w; not a number where the branch of the logarithm is a matter of rounding
CPow(z, w) ==
  IF CIs0(z) THEN IF CIs0(w) THEN C1 ELSE C0
  ELSE IF FEq(w[2], F(0)) /\ FEq(w[1], F(FRound(w[1]))) /\ FLe(F(0), w[1]) /\ FLe(w[1], F(6))
       THEN CASE FRound(w[1]) = 0 -> C1
              [] FRound(w[1]) = 1 -> z
              [] FRound(w[1]) = 2 -> CMul(z, z)
              [] FRound(w[1]) = 3 -> CMul(z, CMul(z, z))
              [] FRound(w[1]) = 4 -> LET q == CMul(z, z) IN CMul(q, q)
              [] FRound(w[1]) = 5 -> LET q == CMul(z, z) IN CMul(z, CMul(q, q))
              [] OTHER -> LET q == CMul(z, z) IN CMul(q, CMul(q, q))
  ELSE IF FLt(z[1], F(0)) /\ FNear(FAdd(z[2], F(1)), F(1)) THEN CNaN
  ELSE CExp(CMul(w, <<FLog(CAbs(z)), CArg(z)>>))
\* a real number to a real power
CPowR(x, w) ==
  IF FLt(x, F(0)) /\ ~FEq(w, F(FRound(w))) THEN CExp(CMul(<<w, F(0)>>, <<FLog(FAbs(x)), FPi>>)) ELSE <<FPow(x, w), F(0)>>
CSin(z) == <<FMul(FSin(z[1]), FCosh(z[2])), FMul(FCos(z[1]), FSinh(z[2]))>>
CCos(z) == <<FMul(FCos(z[1]), FCosh(z[2])), FNeg(FMul(FSin(z[1]), FSinh(z[2])))>>
CTan(z) == CDiv(CSin(z), CCos(z))
CSinh(z) == <<FMul(FSinh(z[1]), FCos(z[2])), FMul(FCosh(z[1]), FSin(z[2]))>>
CCosh(z) == <<FMul(FCosh(z[1]), FCos(z[2])), FMul(FSinh(z[1]), FSin(z[2]))>>
CTanh(z) == CDiv(CSinh(z), CCosh(z))
=============================================================================
