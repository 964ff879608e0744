-------------------------------- MODULE Num --------------------------------
(* Arithmetic for EXPLORATION: plain binary64.  See spec/ival/Num.tla. *)
EXTENDS FP, TLC

Exact == TRUE
Raw(x) == x
Dec(s) == FDec(s)
Int2N(n) == FInt(n)
a \oplus b == FAdd(a, b)
a \ominus b == FSub(a, b)
a \otimes b == FMul(a, b)
a \oslash b == FDiv(a, b)
Diff(a, b) == FSub(a, b)
Neg(a) == FSub(FDec("0"), a)
NAbs(a) == FAbs(a)
NMin(a, b) == FMin(a, b)
NMax(a, b) == FMax(a, b)
NPow(a, n) == FPow(a, n)
NExp(a) == FExp(a)
NLn(a) == FLn(a)
NSqrt(a) == FSqrt(a)
NSum(s) == FSum(s)
Rnd(a) == a
Rnd1(a) == a
Widen(a, e) == a
Hull(a, b) == a
Magn(a) == FAbs(a)

NZero == FDec("0")
NOne == FDec("1")
IfPos(c, a, b) == IF FLt(NZero, c) THEN a ELSE b
SurelyLt(a, b) == FLt(a, b)
SurelyLe(a, b) == FLe(a, b)
MayLt(a, b) == FLt(a, b)
MayLe(a, b) == FLe(a, b)
\* exploration never compares with an observation; 1e-9 relative for internal cross-checks
Agrees(a, x) == FLe(FAbs(FSub(a, x)), FMul(FDec("1e-9"), FMax(FDec("1e-6"), FAbs(x))))
CeilLo(a) == FCeil(a)
CeilHi(a) == FCeil(a)
FloorLo(a) == FFloor(a)
FloorHi(a) == FFloor(a)
Str(a) == FStr(a)
Lo(a) == a
Hi(a) == a
=============================================================================
