-------------------------------- MODULE Num --------------------------------
(* Arithmetic for CONFORMANCE: a number is an interval that contains every value
   a binary32 evaluation of the same formula can produce (each operation widens
   by a few binary32 ulps, so re-association and hoisting stay inside).
   The other instance, spec/exact/Num.tla, is plain binary64 and is the one the
   specification is explored with.  Same specification, two arithmetics. *)
EXTENDS FP, TLC

Exact == FALSE
Raw(x) == IPoint(x)               \* a logged or configured value, taken exactly
Dec(s) == IPoint(FDec(s))
Int2N(n) == IPoint(FInt(n))
a \oplus b == IAdd(a, b)
a \ominus b == ISub(a, b)
a \otimes b == IMul(a, b)
a \oslash b == IDiv(a, b)
Diff(a, b) == ISubExact(a, b)     \* difference of two values stored in binary32: one rounding
Neg(a) == INeg(a)
NAbs(a) == IAbs(a)
NMin(a, b) == IMin(a, b)
NMax(a, b) == IMax(a, b)
NPow(a, n) == IPow(a, n)
NExp(a) == IExp(a)
NLn(a) == ILn(a)
NSqrt(a) == ISqrt(a)
NSum(s) == ISum(s)
Rnd(a) == IRnd(a)
Rnd1(a) == IRnd1(a)
Widen(a, e) == IWiden(a, e)
Hull(a, b) == IHull(a, b)
Magn(a) == IMagn(a)

NZero == IPoint(FDec("0"))
NOne == IPoint(FDec("1"))
\* IF c > 0 THEN a ELSE b, the hull of both where rounding could decide either way
IfPos(c, a, b) == IF ISurelyLt(NZero, c) THEN a
                  ELSE IF ISurelyLe(c, NZero) THEN b
                  ELSE Hull(a, b)
SurelyLt(a, b) == ISurelyLt(a, b)
SurelyLe(a, b) == ISurelyLe(a, b)
MayLt(a, b) == ~ISurelyLe(b, a)
MayLe(a, b) == ~ISurelyLt(b, a)
\* the observed value x (a raw number) is one the formula can produce
Agrees(a, x) == IHas(a, x)
CeilLo(a) == FCeil(ILo(a))
CeilHi(a) == FCeil(IHi(a))
FloorLo(a) == FFloor(ILo(a))
FloorHi(a) == FFloor(IHi(a))
Str(a) == IStr(a)
Lo(a) == ILo(a)
Hi(a) == IHi(a)
=============================================================================
