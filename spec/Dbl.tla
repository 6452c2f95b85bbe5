---------------------------------- MODULE Dbl ----------------------------------
(***************************************************************************)
(* Real arithmetic in double precision. A number is an IEEE 754 double,     *)
(* given by the pair <<hi, lo>> of its two 32-bit words; integers are       *)
(* accepted too. TLC evaluates these operators by java/Dbl.java (module     *)
(* override); without it every use is an error.                             *)
(***************************************************************************)
EXTENDS Integers, TLC

Missing == Assert(FALSE, "Dbl.class is not on the class path")

FAdd(x, y) == Missing
FSub(x, y) == Missing
FMul(x, y) == Missing
FDiv(x, y) == Missing
FPow(x, y) == Missing
FAtan2(x, y) == Missing
FHypot(x, y) == Missing
FNeg(x) == Missing
FAbs(x) == Missing
FSqrt(x) == Missing
FSin(x) == Missing
FCos(x) == Missing
FTan(x) == Missing
FAsin(x) == Missing
FAcos(x) == Missing
FAtan(x) == Missing
FExp(x) == Missing
FLog(x) == Missing
FSinh(x) == Missing
FCosh(x) == Missing
FTanh(x) == Missing
\* x - y * floor(x / y)
FMod(x, y) == Missing
FLt(x, y) == Missing
FLe(x, y) == Missing
FEq(x, y) == Missing
\* greatest integer below
FFloor(x) == Missing
\* integer part
FTrunc(x) == Missing
\* nearest integer, ties to even
FRound(x) == Missing
\* x and y differ by rounding errors at most, or one is no number
FNear(x, y) == Missing
\* x is a finite number
FFin(x) == Missing
\* |x - y| <= t, or no numbers
FNearTol(x, y, t) == Missing
\* the integer n as a double (doubles stay as they are)
F(n) == Missing

FR(p, q) == FDiv(F(p), F(q))
F0 == F(0)
F1 == F(1)
F2 == F(2)
FPi == FMul(F(4), FAtan(F(1)))
\* 1 if x > y, -1 if x < y, 0 if rounding errors can decide
FCmp(x, y) == IF FNear(x, y) THEN 0 ELSE IF FLt(y, x) THEN 1 ELSE -1
FMax(x, y) == IF FLt(x, y) THEN y ELSE x
FMin(x, y) == IF FLt(x, y) THEN x ELSE y
FSgn(x) == IF FLt(F(0), x) THEN 1 ELSE IF FLt(x, F(0)) THEN -1 ELSE 0
\* the integers that x becomes, rounding errors of x allowed for
FEps(x) == FMul(FDiv(F(1), F(1000000000)), FMax(F(1), FAbs(x)))
FRoundSet(x) == {FRound(FSub(x, FEps(x))), FRound(x), FRound(FAdd(x, FEps(x)))}
FTruncSet(x) == {FTrunc(FSub(x, FEps(x))), FTrunc(x), FTrunc(FAdd(x, FEps(x)))}
FFloorSet(x) == {FFloor(FSub(x, FEps(x))), FFloor(x), FFloor(FAdd(x, FEps(x)))}
=============================================================================
