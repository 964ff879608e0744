------------------------------ MODULE FluidSys ------------------------------
(* The fluid as a state machine: fields a user sets, functions a user evaluates.
   An evaluation answers from its arguments (or the current fields) and changes
   nothing.  The clauses below say what the answers are; they are evaluated on
   recorded answers (FluidTrace) and on the specification's own (MCFluid). *)
EXTENDS Verdict

Slack == FDec("2e-6")
\* got is a raw sequence; ordered pairs (i before j) must not fall (up) or rise (down)
Monotone(clause, n, before(_, _), got, up) ==
  LET bad == {p \in (1..n) \X (1..n) :
                /\ p[1] # p[2] /\ before(p[1], p[2])
                /\ IF up THEN FLt(FAdd(got[p[2]], FMul(Slack, FAdd(FDec("1e-3"), FAbs(got[p[2]])))), got[p[1]])
                   ELSE FLt(FAdd(got[p[1]], FMul(Slack, FAdd(FDec("1e-3"), FAbs(got[p[1]])))), got[p[2]])}
  IN IF bad = {} THEN {} ELSE LET p == CHOOSE p \in bad : TRUE
                              IN {Fail(clause, p[1], FStr(got[p[1]]), FStr(got[p[2]]))}
InUnit(clause, got) == Each(clause, 1..Len(got),
   LAMBDA i : FLe(FDec("0"), got[i]) /\ FLe(got[i], FDec("1.000001")), LAMBDA i : "[0,1]", LAMBDA i : FStr(got[i]))

-----------------------------------------------------------------------------
(* C16: relative permeabilities; r holds the sequences sw sg krw kro krg *)

KrClauses(f, r) ==
  LET n == Len(r.sw)
      S(i) == Raw(r.sw[i])  G(i) == Raw(r.sg[i])
      stone == f.relperm_model = "stone2"
  IN Match("water relative permeability", r.krw, LAMBDA i : KrW(f, S(i)))
     \cup Match("oil relative permeability", r.kro, LAMBDA i : KrO(f, S(i), G(i)))
     \cup Match("gas relative permeability", r.krg, LAMBDA i : KrG(f, G(i)))
     \cup InUnit("water relative permeability in [0,1]", r.krw)
     \cup InUnit("oil relative permeability in [0,1]", r.kro)
     \cup InUnit("gas relative permeability in [0,1]", r.krg)
     \cup Monotone("water relative permeability grows with water", n, LAMBDA i, j : FLe(r.sw[i], r.sw[j]), r.krw, TRUE)
     \cup Monotone("gas relative permeability grows with gas", n, LAMBDA i, j : FLe(r.sg[i], r.sg[j]), r.krg, TRUE)
     \cup Monotone("oil relative permeability falls with water and gas", n,
                   LAMBDA i, j : FLe(r.sw[i], r.sw[j]) /\ (~stone \/ FLe(r.sg[i], r.sg[j])), r.kro, FALSE)
     \cup Each("immobile at and below connate water, critical gas and residual oil", 1..n,
               LAMBDA i : /\ SurelyLe(S(i), f.sw_cr) => r.krw[i] = FDec("0")
                          /\ SurelyLe(G(i), f.sg_cr) => r.krg[i] = FDec("0")
                          /\ SurelyLe(C1 \ominus f.so_r, S(i)) => FLe(r.kro[i], FDec("1e-6")),
               LAMBDA i : "0", LAMBDA i : FStr(r.krw[i]) \o " " \o FStr(r.krg[i]) \o " " \o FStr(r.kro[i]))
\* derivatives of the Corey curves
DkrClauses(f, r) ==
  LET S(i) == Raw(r.sw[i])  G(i) == Raw(r.sg[i]) IN
  Match("derivative of the water curve", r.dkrw, LAMBDA i : DKrW(f, S(i)))
  \cup Match("derivative of the oil curve", r.dkro, LAMBDA i : DKrO(f, S(i)))
  \cup Match("derivative of the gas curve", r.dkrg, LAMBDA i : DKrG(f, G(i)))
  \cup Match("water derivative of the pair", r.dkrw2, LAMBDA i : DKrW(f, S(i)))
  \cup Match("oil derivative of the pair", r.dkro2, LAMBDA i : DKrO(f, S(i)))

-----------------------------------------------------------------------------
(* C17: capillary pressures; r holds sw sg pc pcog dpc dpcog *)

PcClauses(f, r) ==
  LET n == Len(r.sw)
      S(i) == Raw(r.sw[i])  G(i) == Raw(r.sg[i])
  IN Match("water-oil capillary pressure", r.pc, LAMBDA i : Pc(f, S(i)))
     \cup Match("gas-oil capillary pressure", r.pcog, LAMBDA i : PcOG(f, G(i)))
     \cup Match("derivative of the water-oil capillary pressure", r.dpc, LAMBDA i : DPc(f, S(i)))
     \cup Match("derivative of the gas-oil capillary pressure", r.dpcog, LAMBDA i : DPcOG(f, G(i)))
     \cup (IF SurelyLt(f.pc_scale, C0) THEN {} ELSE Monotone("water-oil capillary pressure never falls", n, LAMBDA i, j : FLe(r.sw[i], r.sw[j]), r.pc, TRUE))
     \cup (IF SurelyLt(f.pcog_scale, C0) THEN {} ELSE Monotone("gas-oil capillary pressure never falls", n, LAMBDA i, j : FLe(r.sg[i], r.sg[j]), r.pcog, TRUE))
     \cup Each("no capillary pressure unless configured", 1..n,
               LAMBDA i : /\ f.pc_zero => r.pc[i] = FDec("0") /\ r.dpc[i] = FDec("0")
                          /\ f.pcog_zero => r.pcog[i] = FDec("0") /\ r.dpcog[i] = FDec("0"),
               LAMBDA i : "0", LAMBDA i : FStr(r.pc[i]) \o " " \o FStr(r.pcog[i]))

-----------------------------------------------------------------------------
(* C18: the PVT table.  doc is the JSON document. *)

Columns == <<"Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3">>
ValidTable(doc) ==
  /\ Has(doc, "pressure_MPa") /\ Len(doc.pressure_MPa) > 0
  /\ \A i \in 1..(Len(doc.pressure_MPa) - 1) : FLt(doc.pressure_MPa[i], doc.pressure_MPa[i + 1])
  /\ \A i \in 1..Len(Columns) : Has(doc, Columns[i]) /\ Len(doc[Columns[i]]) = Len(doc.pressure_MPa)
  /\ Has(doc, "Rv_m3m3") => Len(doc.Rv_m3m3) = Len(doc.pressure_MPa)
Kinds == <<"Bo", "Bw", "Bg", "mu_o", "mu_w", "mu_g", "Rs", "Rv">>
\* t: the table of Config!PvtOf; r: [p (MPa), one sequence per kind]
PvtClauses(t, r) ==
  LET least(s) == CHOOSE x \in {Lo(s[i]) : i \in 1..Len(s)} : \A i \in 1..Len(s) : FLe(x, Lo(s[i]))
      most(s) == CHOOSE x \in {Hi(s[i]) : i \in 1..Len(s)} : \A i \in 1..Len(s) : FLe(Hi(s[i]), x)
      one(k) ==
        Match("table value of " \o k, r[k], LAMBDA i : InterpAt(t.P, t[k], Raw(r.p[i])))
        \cup LET a == least(t[k])  b == most(t[k]) IN
             Each("table value of " \o k \o " within the column", 1..Len(r.p),
                  LAMBDA i : FLe(FSub(a, FMul(FDec("1e-9"), FAbs(a))), r[k][i]) /\ FLe(r[k][i], FAdd(b, FMul(FDec("1e-9"), FAbs(b)))),
                  LAMBDA i : FStr(a) \o " to " \o FStr(b), LAMBDA i : FStr(r[k][i]))
  IN UNION {one(Kinds[q]) : q \in 1..Len(Kinds)}

-----------------------------------------------------------------------------
(* C19: densities, viscosities, total compressibility.
   r: p (Pa) and the answers for it; cur: the same at the current field *)

DenClauses(f, r) ==
  LET P(i) == Raw(r.p[i]) IN
  Match("water density", r.rho_w, LAMBDA i : RhoW(f, P(i)))
  \cup Match("oil density", r.rho_o, LAMBDA i : RhoO(f, P(i)))
  \cup Match("gas density", r.rho_g, LAMBDA i : RhoG(f, P(i)))
CurClauses(f, p, r) ==
  LET P(i) == Raw(p[i]) IN
  Match("current water density", r.rho_w, LAMBDA i : RhoW(f, P(i)))
  \cup Match("current oil density", r.rho_o, LAMBDA i : RhoO(f, P(i)))
  \cup Match("current gas density", r.rho_g, LAMBDA i : RhoG(f, P(i)))
  \cup Match("water viscosity", r.mu_w, LAMBDA i : MuW(f, P(i)))
  \cup Match("oil viscosity", r.mu_o, LAMBDA i : MuO(f, P(i)))
  \cup Match("gas viscosity", r.mu_g, LAMBDA i : MuG(f, P(i)))
CtClauses(f, r) ==
  Match("total compressibility", r.ct, LAMBDA i : CT(f, Raw(r.p[i]), Raw(r.sw[i]), Raw(r.sg[i])))
=============================================================================
