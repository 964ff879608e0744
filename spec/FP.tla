-------------------------------- MODULE FP --------------------------------
(* IEEE-754 arithmetic for TLC.  The operators are overridden by java/FP.java;
   the right-hand sides here are placeholders that TLC never evaluates.
   A number is <<hi, lo>>, the two signed 32-bit halves of a binary64; an
   interval is the 4-tuple of its two end points. *)
EXTENDS Integers, Sequences

FDec(s) == <<"FP", s>>            \* decimal literal
FInt(n) == <<"FP", n>>            \* an integer as a number
FAdd(a, b) == <<"FP", a, b>>
FSub(a, b) == <<"FP", a, b>>
FMul(a, b) == <<"FP", a, b>>
FDiv(a, b) == <<"FP", a, b>>
FPow(a, b) == <<"FP", a, b>>
FExp(a) == <<"FP", a>>
FLn(a) == <<"FP", a>>
FSqrt(a) == <<"FP", a>>
FAbs(a) == <<"FP", a>>
FMin(a, b) == <<"FP", a, b>>
FMax(a, b) == <<"FP", a, b>>
FSum(s) == <<"FP", s>>
FSingle(a) == <<"FP", a>>         \* nearest binary32
FLt(a, b) == FALSE
FLe(a, b) == FALSE
FFinite(a) == FALSE
FCeil(a) == 0                     \* an integer of TLC
FFloor(a) == 0
FStr(a) == ""

IPoint(a) == <<"FP", a>>
IRange(a, b) == <<"FP", a, b>>
ILo(a) == <<"FP", a>>
IHi(a) == <<"FP", a>>
IAdd(a, b) == <<"FP", a, b>>
ISub(a, b) == <<"FP", a, b>>
ISubExact(a, b) == <<"FP", a, b>>
IMul(a, b) == <<"FP", a, b>>
IDiv(a, b) == <<"FP", a, b>>
INeg(a) == <<"FP", a>>
IAbs(a) == <<"FP", a>>
IMin(a, b) == <<"FP", a, b>>
IMax(a, b) == <<"FP", a, b>>
IHull(a, b) == <<"FP", a, b>>
IPow(a, b) == <<"FP", a, b>>
IExp(a) == <<"FP", a>>
ILn(a) == <<"FP", a>>
ISqrt(a) == <<"FP", a>>
ISum(s) == <<"FP", s>>
IRnd1(a) == <<"FP", a>>
IRnd(a) == <<"FP", a>>
IWiden(a, e) == <<"FP", a, e>>
IHas(a, x) == FALSE
IMagn(a) == <<"FP", a>>
ISurelyLt(a, b) == FALSE
ISurelyLe(a, b) == FALSE
IWidth(a) == <<"FP", a>>
IStr(a) == ""

\* the override is loaded
ASSUME FAdd(FDec("1.5"), FDec("2.25")) = FDec("3.75")
ASSUME IHas(IAdd(IPoint(FDec("0.1")), IPoint(FDec("0.2"))), FDec("0.3"))
=============================================================================
