------------------------------- MODULE MCFluid -------------------------------
(* Exhaustive walk over a grid of pressures and saturations, for every fluid of the
   file IOEnv.LATTICE [id, fluid, pvt, P, sw, sg] (P in Pa, all sequences ascending).
   A step raises one of the three by one grid point; what must hold between
   neighbours is an action property, what must hold at a point an invariant.
   Every state is printed: the harness evaluates the real functions there. *)
EXTENDS FluidSys

VARIABLES cf, ip, iw, ig,
          F        \* the fluid (never changes)
vars == <<cf, ip, iw, ig, F>>

Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Prop == IOEnv.PROP
Want(p) == Prop = "ALL" \/ Prop = p

Init == cf \in 1..Len(Lat) /\ F = FluidOf(Lat[cf].fluid, Lat[cf].pvt) /\ ip = 1 /\ iw = 1 /\ ig = 1
RaiseP == ip < Len(Lat[cf].P) /\ ip' = ip + 1 /\ UNCHANGED <<cf, iw, ig>>
RaiseW == iw < Len(Lat[cf].sw) /\ iw' = iw + 1 /\ UNCHANGED <<cf, ip, ig>>
RaiseG == ig < Len(Lat[cf].sg) /\ ig' = ig + 1 /\ UNCHANGED <<cf, ip, iw>>
Next == (RaiseP \/ RaiseW \/ RaiseG) /\ UNCHANGED F
Spec == Init /\ [][Next]_vars

P == Raw(Lat[cf].P[ip])
W == Raw(Lat[cf].sw[iw])
G == Raw(Lat[cf].sg[ig])
Tol == Dec("1e-9")
AtMost(a, b) == SurelyLe(a, b \oplus (Tol \otimes (Tol \oplus NAbs(b))))
Unit01(x) == SurelyLe(C0, x) /\ SurelyLe(x, C1 \oplus Tol)

-----------------------------------------------------------------------------
Mobility ==
  Want("C16") =>
  /\ Unit01(KrW(F, W)) /\ Unit01(KrO(F, W, G)) /\ Unit01(KrG(F, G))
  /\ SurelyLe(W, F.sw_cr) => KrW(F, W) = C0 /\ DKrW(F, W) = C0
  /\ SurelyLe(G, F.sg_cr) => KrG(F, G) = C0 /\ DKrG(F, G) = C0
  /\ SurelyLe(C1 \ominus F.so_r, W) =>
        AtMost(KrO(F, W, G), C0) /\ AtMost(KrW(F, W), F.krw_end) /\ AtMost(F.krw_end, KrW(F, W))
  /\ SurelyLe(W, F.sw_cr) /\ SurelyLe(G, F.sg_cr) =>
        LET top == IF F.relperm_model = "stone2" THEN F.ko_end_w ELSE C1
        IN AtMost(KrO(F, W, G), top) /\ AtMost(top, KrO(F, W, G))
  /\ SurelyLe(DKrO(F, W), C0) /\ SurelyLe(C0, DKrW(F, W)) /\ SurelyLe(C0, DKrG(F, G))
Capillary ==
  Want("C17") =>
  /\ F.pc_zero => Pc(F, W) = C0 /\ DPc(F, W) = C0
  /\ F.pcog_zero => PcOG(F, G) = C0 /\ DPcOG(F, G) = C0
  /\ SurelyLe(C0, Pc(F, W)) /\ SurelyLe(C0, DPc(F, W)) /\ SurelyLe(C0, PcOG(F, G)) /\ SurelyLe(C0, DPcOG(F, G))
  /\ SurelyLe(W, F.sw_cr) => AtMost(NAbs(Pc(F, W) \ominus F.pc_scale), F.pc_scale \otimes Dec("1e-5"))
Rows1 == IF F.has_pvt THEN 1..Len(F.pvt.P) ELSE {}
TableAt ==
  Want("C18") /\ F.has_pvt =>
  \A q \in 1..Len(Kinds) :
    LET col == F.pvt[Kinds[q]]
        x == PMPa(P)
        v == InterpAt(F.pvt.P, col, x)
    IN /\ \A i \in Rows1 : F.pvt.P[i] = x => v = col[i]
       /\ \A i \in Rows1 : (i < Len(F.pvt.P) /\ SurelyLe(F.pvt.P[i], x) /\ SurelyLe(x, F.pvt.P[i + 1])) =>
             /\ AtMost(NMin(col[i], col[i + 1]), v) /\ AtMost(v, NMax(col[i], col[i + 1]))
             \* on the chord
             /\ AtMost(NAbs(((v \ominus col[i]) \otimes (F.pvt.P[i + 1] \ominus F.pvt.P[i]))
                              \ominus ((x \ominus F.pvt.P[i]) \otimes (col[i + 1] \ominus col[i]))), Dec("1e-9"))
       /\ SurelyLe(x, F.pvt.P[1]) => v = col[1]
       /\ SurelyLe(F.pvt.P[Len(F.pvt.P)], x) => v = col[Len(F.pvt.P)]
\* mass is conserved between reservoir and surface: B times density is the surface mass it carries
Density ==
  Want("C19") =>
  /\ SurelyLt(C0, RhoW(F, P)) /\ SurelyLt(C0, RhoO(F, P)) /\ SurelyLt(C0, RhoG(F, P))
  /\ SurelyLt(C0, MuW(F, P)) /\ SurelyLt(C0, MuO(F, P)) /\ SurelyLt(C0, MuG(F, P))
  /\ F.has_pvt =>
       /\ AtMost(NAbs((RhoW(F, P) \otimes Pvt(F, "Bw", P)) \ominus F.rho_w), Dec("1e-6"))
       /\ AtMost(F.rho_o, RhoO(F, P) \otimes (Pvt(F, "Bo", P) \oplus EPS12))
       /\ AtMost(F.rho_g, RhoG(F, P) \otimes (Pvt(F, "Bg", P) \oplus EPS12))
  /\ ~F.has_pvt => CT(F, P, W, G) = F.cf
  \* saturation-weighted: with one phase only, the rock and that phase
  /\ (F.has_pvt /\ W = C1 /\ G = C0) => AtMost(NAbs(CT(F, P, W, G) \ominus (F.c_rock \oplus CompB(F, "Bw", P))), Dec("1e-15"))

\* between neighbours
Between(d1, secant, d2) == AtMost(NMin(d1, d2), secant) /\ AtMost(secant, NMax(d1, d2))
Mobile(w) == Inside(w, F.sw_cr, C1 \ominus F.so_r)
WaterStep ==
  [][RaiseW =>
     LET h == W' \ominus W IN
     /\ Want("C16") =>
          /\ AtMost(KrW(F, W), KrW(F, W')) /\ AtMost(KrO(F, W', G), KrO(F, W, G))
          /\ (Mobile(W) /\ Mobile(W')) =>
               /\ Between(DKrW(F, W), (KrW(F, W') \ominus KrW(F, W)) \oslash h, DKrW(F, W'))
               /\ SurelyLt(C0, KrO(F, W', G)) =>
                    Between(DKrO(F, W), (KrO(F, W', G) \ominus KrO(F, W, G)) \oslash h, DKrO(F, W'))
     /\ Want("C17") =>
          /\ AtMost(Pc(F, W), Pc(F, W'))
          /\ (Mobile(W) /\ Mobile(W')) => Between(DPc(F, W), (Pc(F, W') \ominus Pc(F, W)) \oslash h, DPc(F, W'))]_vars
GasStep ==
  [][RaiseG =>
     LET h == G' \ominus G
         in(x) == Inside(x, F.sg_cr, F.sg_cr \oplus (Range_w(F) \ominus F.sg_cr)) IN
     /\ Want("C16") =>
          /\ AtMost(KrG(F, G), KrG(F, G'))
          /\ F.relperm_model = "stone2" => AtMost(KrO(F, W, G'), KrO(F, W, G))
          /\ (in(G) /\ in(G')) => Between(DKrG(F, G), (KrG(F, G') \ominus KrG(F, G)) \oslash h, DKrG(F, G') \oplus Dec("1e-8"))
     /\ Want("C17") =>
          /\ AtMost(PcOG(F, G), PcOG(F, G'))
          /\ (SurelyLt(C0, G) /\ SurelyLt(G', Range_w(F))) =>
               Between(DPcOG(F, G), (PcOG(F, G') \ominus PcOG(F, G)) \oslash h, DPcOG(F, G'))]_vars
PressureStep ==
  [][RaiseP /\ Want("C19") /\ ~F.has_pvt =>
     LET one(a, b, ref, c) == AtMost(NAbs((b \ominus a) \ominus ((ref \otimes c) \otimes (P' \ominus P))), Dec("1e-6")) IN
     /\ one(RhoW(F, P), RhoW(F, P'), F.rho_w, F.c_w)
     /\ one(RhoO(F, P), RhoO(F, P'), F.rho_o, F.c_o)
     /\ one(RhoG(F, P), RhoG(F, P'), F.rho_g, F.c_g)]_vars

Emit == PrintT(ToJson([cfg |-> Lat[cf].id, at |-> <<ip, iw, ig>>]))
=============================================================================
