------------------------------- MODULE PvtGen -------------------------------
(* The generator of synthetic PVT tables: a table is a function of the parameters asked for,
   a file holds the table of the last request made for it, and what the fluid reads from the
   file is that table.
   parameters: [p_min, p_max, pb (MPa), n (integer), temp, api, sg, salt] *)
EXTENDS FluidSys

VARIABLE disk      \* file name -> parameters of the table it holds

PDefaults == [p_min |-> Dec("5"), p_max |-> Dec("60"), pb |-> Dec("20"), n |-> 50,
              temp |-> Dec("90"), api |-> Dec("35"), sg |-> Dec("0.7"), salt |-> Dec("100")]
Given == {"p_min", "p_max", "pb", "temp", "api", "sg", "salt"}
\* a: the parameters that were given (raw numbers; n an integer)
ParamsOf(a) == [k \in DOMAIN PDefaults |-> IF k \notin DOMAIN a THEN PDefaults[k] ELSE IF k \in Given THEN Raw(a[k]) ELSE a[k]]

Write(f, p) == disk' = [g \in DOMAIN disk \cup {f} |-> IF g = f THEN p ELSE disk[g]]

-----------------------------------------------------------------------------
(* The curves at pressure x (a Num) *)
Clip(x, lo, hi) == NMax(lo, NMin(hi, x))
RsMax(p) == Clip((Dec("120") \oplus (Dec("2") \otimes (p.api \ominus Dec("30")))) \oplus (Dec("50") \otimes (p.sg \ominus Dec("0.7"))),
                 Dec("50"), Dec("250"))
Below(p, x) == SurelyLe(x, p.pb)      \* both are exact inputs
Node(p, i) == IF p.n <= 1 THEN p.p_min ELSE p.p_min \oplus (Int2N(i - 1) \otimes ((p.p_max \ominus p.p_min) \oslash Int2N(p.n - 1)))
Rs_(p, x) == IF Below(p, x) THEN RsMax(p) \otimes NPow(x \oslash p.pb, Dec("0.85")) ELSE RsMax(p)
Rv_(p, x) == Dec("0.02") \otimes (x \oslash p.p_max)
Bo_(p, x) == IF Below(p, x) THEN NMax(Dec("1.1"), Dec("1.2") \ominus (Dec("0.1") \otimes NPow(x \oslash p.pb, Dec("0.6"))))
             ELSE Dec("1.1") \otimes NExp(Neg(Dec("3e-4") \otimes (x \ominus p.pb)))
Bw_(p, x) == Dec("1.02") \otimes NExp(Neg(Dec("4e-4") \otimes (x \ominus p.p_min)))
Bg_(p, x) == Clip(Dec("0.1") \oslash NMax(x, Dec("1e-6")), Dec("0.001"), Dec("0.05"))
MuO_(p, x) == IF Below(p, x) THEN NMax(Dec("0.5"), Dec("2.5") \otimes (Dec("0.8") \ominus (Dec("0.5") \otimes (Rs_(p, x) \oslash RsMax(p)))))
              ELSE Dec("0.75") \otimes (C1 \oplus (Dec("0.001") \otimes (x \ominus p.pb)))
MuW_(p, x) == Dec("0.5") \otimes (C1 \oplus ((Dec("0.02") \otimes (x \ominus p.p_min)) \oslash NMax(p.p_max \ominus p.p_min, Dec("1e-6"))))
MuG_(p, x) == Dec("0.02") \otimes (C1 \oplus (Dec("0.5") \otimes (x \oslash p.p_max)))
Curve(p, k, x) == CASE k = "Bo" -> Bo_(p, x) [] k = "Bw" -> Bw_(p, x) [] k = "Bg" -> Bg_(p, x) [] k = "mu_o_cP" -> MuO_(p, x)
                    [] k = "mu_w_cP" -> MuW_(p, x) [] k = "mu_g_cP" -> MuG_(p, x) [] k = "Rs_m3m3" -> Rs_(p, x) [] k = "Rv_m3m3" -> Rv_(p, x)
Curves == Columns \o <<"Rv_m3m3">>
RowsOf(p) == IF p.n <= 1 THEN 1 ELSE p.n

-----------------------------------------------------------------------------
(* What a generated document must be *)
TableClauses(p, doc) ==
  IF ~ValidTable(doc) \/ ~Has(doc, "Rv_m3m3") THEN {Fail("the generated table is complete and its pressures ascend", 0, "", "not")}
  ELSE IF Len(doc.pressure_MPa) # RowsOf(p) THEN {Fail("number of rows", 0, ToString(RowsOf(p)), ToString(Len(doc.pressure_MPa)))}
  ELSE LET P == doc.pressure_MPa  n == Len(P) IN
    Match("pressures are evenly spaced over the range", P, LAMBDA i : Node(p, i))
    \cup If(Agrees(Rnd(p.p_min), P[1]) /\ (n > 1 => Agrees(Rnd(p.p_max), P[n])), Fail("the range of pressures", 0, Str(p.p_min) \o " to " \o Str(p.p_max), FStr(P[1]) \o " to " \o FStr(P[n])))
    \cup UNION {Match("generated " \o Curves[q], doc[Curves[q]], LAMBDA i : Curve(p, Curves[q], Raw(P[i]))) : q \in 1..Len(Curves)}
    \* the laws a simulation relies on
    \cup Each("positive volume factors and viscosities", 1..n,
              LAMBDA i : \A k \in {"Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP"} : FLt(FDec("0"), doc[k][i]),
              LAMBDA i : "> 0", LAMBDA i : ToString(i))
    \cup LET up(k) == \A i \in 1..(n - 1) : FLe(doc[k][i], doc[k][i + 1])
             down(k) == \A i \in 1..(n - 1) : FLe(doc[k][i + 1], doc[k][i])
         IN {Fail(k \o " grows with pressure", 0, "", "falls") : k \in {k \in {"Rs_m3m3", "Rv_m3m3", "mu_w_cP", "mu_g_cP"} : ~up(k)}}
            \cup {Fail(k \o " falls with pressure", 0, "", "grows") : k \in {k \in {"Bw", "Bg"} : ~down(k)}}
    \cup LET m == doc.meta IN
         UNION {If(Has(m, f[1]) /\ Agrees(f[2], m[f[1]]), Fail("recorded parameter " \o f[1], 0, Str(f[2]), IF Has(m, f[1]) THEN FStr(m[f[1]]) ELSE "missing")) :
            f \in {<<"temperature_C", p.temp>>, <<"oil_API", p.api>>, <<"gas_SG", p.sg>>, <<"salinity_gpl", p.salt>>, <<"bubble_point_MPa", p.pb>>}}
    \cup If(doc.units.pressure = "MPa" /\ doc.units.mu = "cP" /\ doc.units.Rs = "m3/m3", Fail("units", 0, "MPa, cP, m3/m3", ToString(doc.units)))
=============================================================================
