------------------------------- MODULE Fluid -------------------------------
(* Rock-fluid functions: relative permeabilities, capillary pressures, PVT
   interpolation, densities, viscosities, compressibility.
   `f` is the fluid record that Config!FluidOf derives from the user's
   configuration.  All quantities are in SI unless a name says otherwise. *)
EXTENDS Num, FiniteSets

C1 == NOne
C0 == NZero
Half == Dec("0.5")
EPS6 == Dec("1e-6")
EPS10 == Dec("1e-10")
EPS12 == Dec("1e-12")
EPS30 == Dec("1e-30")
MPa == Dec("1e6")
PRef == Dec("1e5")
Milli == Dec("1e-3")
Day == Dec("86400")
Clamp01(x) == NMin(NMax(x, C0), C1)

-----------------------------------------------------------------------------
(* Relative permeabilities *)

\* mobile water fraction, 0 at connate water and 1 at residual oil
SwNorm(f, sw) == Clamp01((sw \ominus f.sw_cr) \oslash ((C1 \ominus f.sw_cr) \ominus f.so_r))
\* gas between its critical saturation and the most that connate water and residual oil leave
SgNorm(f, sg) == Clamp01((sg \ominus f.sg_cr) \oslash
                         ((((C1 \ominus f.sw_cr) \ominus f.so_r) \ominus f.sg_cr) \oplus EPS10))
\* gas-oil normalisation of the Stone II model
SgNormGO(f, sg) == Clamp01((sg \ominus f.sg_cr) \oslash (((C1 \ominus f.sg_cr) \ominus f.so_r) \oplus EPS12))

KrW(f, sw) == f.krw_end \otimes NPow(SwNorm(f, sw), f.nw)
KrG(f, sg) == f.krg_end \otimes NPow(SgNorm(f, sg), f.ng)
KrOCorey(f, sw) == NPow(C1 \ominus SwNorm(f, sw), f.no)
KrOW(f, sw) == f.ko_end_w \otimes NPow(C1 \ominus SwNorm(f, sw), f.now)
KrOG(f, sg) == f.ko_end_g \otimes NPow(C1 \ominus SgNormGO(f, sg), f.nog)
KrOStone2(f, sw, sg) == NMax((KrOW(f, sw) \oplus KrOG(f, sg)) \ominus f.ko_end_g, C0)
KrO(f, sw, sg) == IF f.relperm_model = "stone2" THEN KrOStone2(f, sw, sg) ELSE KrOCorey(f, sw)

\* derivatives (zero outside the mobile range, where the curves are flat)
Range_w(f) == (C1 \ominus f.sw_cr) \ominus f.so_r
Inside(x, lo, hi) == SurelyLt(lo, x) /\ SurelyLt(x, hi)
Outside(x, lo, hi) == SurelyLe(x, lo) \/ SurelyLe(hi, x)
\* a kink is located to the precision saturations are compared in
Kink == Dec("2e-7")
Branch(x, a, b, inner) ==
  LET lo == Widen(a, Kink)  hi == Widen(b, Kink)
  IN IF Inside(x, lo, hi) THEN inner ELSE IF Outside(x, lo, hi) THEN C0 ELSE Hull(inner, C0)
DKrW(f, sw) == Branch(sw, f.sw_cr, C1 \ominus f.so_r,
                 ((f.krw_end \otimes f.nw) \otimes NPow(SwNorm(f, sw), f.nw \ominus C1)) \oslash Range_w(f))
\* Stone II: the slope of the oil-water curve wherever oil flows (the oil-gas curve does not depend on water)
SlopeO(f, sw) == IF f.relperm_model = "stone2"
                 THEN Neg(((f.ko_end_w \otimes f.now) \otimes NPow(C1 \ominus SwNorm(f, sw), f.now \ominus C1)) \oslash Range_w(f))
                 ELSE Neg((f.no \otimes NPow(C1 \ominus SwNorm(f, sw), f.no \ominus C1)) \oslash Range_w(f))
DKrO(f, sw) == Branch(sw, f.sw_cr, C1 \ominus f.so_r, SlopeO(f, sw))
DKrG(f, sg) == Branch(sg, f.sg_cr, f.sg_cr \oplus ((Range_w(f)) \ominus f.sg_cr),
                 ((f.krg_end \otimes f.ng) \otimes NPow(SgNorm(f, sg), f.ng \ominus C1))
                   \oslash (Range_w(f) \ominus f.sg_cr))

-----------------------------------------------------------------------------
(* Capillary pressures, Pa *)

Pc(f, sw) == IF f.pc_zero THEN C0
             ELSE f.pc_scale \otimes NPow((C1 \ominus SwNorm(f, sw)) \oplus EPS6, Neg(f.pc_exponent))
SgPc(f, sg) == Clamp01(sg \oslash (Range_w(f) \oplus EPS12))
PcOG(f, sg) == IF f.pcog_zero THEN C0
               ELSE f.pcog_scale \otimes NPow((C1 \ominus SgPc(f, sg)) \oplus EPS6, Neg(f.pcog_exponent))
DPc(f, sw) == IF f.pc_zero THEN C0
              ELSE LET sn == SwNorm(f, sw)
                       d == ((f.pc_scale \otimes f.pc_exponent)
                              \otimes NPow((C1 \ominus sn) \oplus EPS6, Neg(f.pc_exponent) \ominus C1)) \oslash Range_w(f)
                   IN IF SurelyLt(sn, C1) THEN d ELSE IF SurelyLe(C1, sn) THEN C0 ELSE Hull(C0, d)
DPcOG(f, sg) == IF f.pcog_zero THEN C0
                ELSE LET sn == SgPc(f, sg)
                         d == ((f.pcog_scale \otimes f.pcog_exponent)
                               \otimes NPow((C1 \ominus sn) \oplus EPS6, Neg(f.pcog_exponent) \ominus C1)) \oslash (Range_w(f) \oplus EPS12)
                     IN IF SurelyLt(sn, C1) THEN d ELSE IF SurelyLe(C1, sn) THEN C0 ELSE Hull(C0, d)

-----------------------------------------------------------------------------
(* PVT table: piecewise linear in pressure (MPa), flat beyond both ends.
   `t` has the ascending pressures t.P and one sequence per property. *)

InterpAt(xs, ys, x) ==        \* x a point value (its interval may be a few ulps wide)
  LET n == Len(xs) IN
  IF SurelyLe(x, xs[1]) THEN ys[1]
  ELSE IF SurelyLe(xs[n], x) THEN ys[n]
  ELSE LET \* every segment that x may lie in
           segs == {i \in 1..(n-1) : MayLe(xs[i], x) /\ MayLe(x, xs[i+1])}
           val(i) == LET w == Clamp01((x \ominus xs[i]) \oslash (xs[i+1] \ominus xs[i]))
                     IN ys[i] \oplus (w \otimes (ys[i+1] \ominus ys[i]))
           RECURSIVE H(_)
           H(S) == LET i == CHOOSE i \in S : TRUE IN
                   IF S = {i} THEN val(i) ELSE Hull(val(i), H(S \ {i}))
       IN H(segs)

PMPa(p) == p \oslash MPa
\* all table properties at pressure p (Pa), as the simulator stores them (binary32)
Pvt(f, k, p) == Rnd1(InterpAt(f.pvt.P, f.pvt[k], PMPa(p)))

-----------------------------------------------------------------------------
(* Densities (kg/m3), viscosities (Pa s), compressibility (1/Pa) *)

Linear(ref, c, p) == ref \otimes (C1 \oplus (c \otimes (p \ominus PRef)))
RhoW(f, p) == IF f.has_pvt THEN f.rho_w \oslash (Pvt(f, "Bw", p) \oplus EPS12)
              ELSE Linear(f.rho_w, f.c_w, p)
RhoO(f, p) == IF f.has_pvt
              THEN (f.rho_o \oplus (Pvt(f, "Rs", p) \otimes f.rho_g)) \oslash (Pvt(f, "Bo", p) \oplus EPS12)
              ELSE Linear(f.rho_o, f.c_o, p)
RhoG(f, p) == IF f.has_pvt
              THEN (f.rho_g \oplus (Pvt(f, "Rv", p) \otimes f.rho_o)) \oslash (Pvt(f, "Bg", p) \oplus EPS12)
              ELSE Linear(f.rho_g, f.c_g, p)
MuW(f, p) == IF f.has_pvt THEN Pvt(f, "mu_w", p) \otimes Milli ELSE f.mu_w
MuO(f, p) == IF f.has_pvt THEN Pvt(f, "mu_o", p) \otimes Milli ELSE f.mu_o
MuG(f, p) == IF f.has_pvt THEN Pvt(f, "mu_g", p) \otimes Milli ELSE f.mu_g

DeltaMPa == Dec("0.1")
TwoDelta == Dec("0.2")
\* -(1/B) dB/dP by a central difference of +-0.1 MPa
CompB(f, k, p) ==
  LET d == DeltaMPa \otimes MPa
      up == InterpAt(f.pvt.P, f.pvt[k], PMPa(Rnd1(p \oplus d)))
      dn == InterpAt(f.pvt.P, f.pvt[k], PMPa(Rnd1(p \ominus d)))
      slope == Diff(Rnd1(up), Rnd1(dn)) \oslash TwoDelta
  IN Neg(slope \oslash (Pvt(f, k, p) \oplus EPS12)) \oslash MPa
CT(f, p, sw, sg) ==
  IF ~f.has_pvt THEN f.cf
  ELSE LET so == (C1 \ominus sw) \ominus sg
       IN NSum(<<f.c_rock, sw \otimes CompB(f, "Bw", p), so \otimes CompB(f, "Bo", p), sg \otimes CompB(f, "Bg", p)>>)
=============================================================================
