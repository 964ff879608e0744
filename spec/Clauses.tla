------------------------------- MODULE Clauses -------------------------------
(* What one accepted sub-step from observable state o to observable state n, of
   length dt under controls v, must satisfy on model m; split into named clauses
   so that a rejection says which property is broken.  Used on recorded steps
   (Trace.tla, interval arithmetic) and on the specification's own steps
   (MCOilSim.tla, exact arithmetic). *)
EXTENDS OilSim, Verdict

Cells(m) == 1..m.n
\* everything the clauses share about the step; LET-bound parts are evaluated on demand
Step(m, v, dt, o, n) ==
  LET Q == Field(n.P)  sw == Field(o.sw)  sg == Field(o.sg)
      s == Sats(m, v, Raw(dt), Q, sw, sg)
  IN TLCEval([outs |-> s.outs, new |-> s.new])
PressureStep(m, v, dt, o, n) ==
  Rows(m, v, Raw(dt), Field(o.P), Field(o.sw), Field(o.sg), Field(n.P))

-----------------------------------------------------------------------------
SatTol == Dec("3e-6")
NotBelow(x, w) == ~SurelyLt(Raw(x) \oplus SatTol, w)
\* x is zero up to tol
Within(x, tol) == MayLe(x, tol) /\ MayLe(Neg(tol), x)

C01Clauses(m, o, n) ==
  LET W == TLCEval([c \in Cells(m) |-> Window(m, Raw(o.sw[c]), Raw(o.sg[c]))])
      tot(c) == FAdd(FAdd(n.sw[c], n.sg[c]), n.so[c])
      tol == FDec("3e-6")
      in01(x) == FLe(FSub(FZero, tol), x) /\ FLe(x, FAdd(FDec("1"), tol))
  IN Each("finite saturations", Cells(m),
          LAMBDA c : FFinite(n.sw[c]) /\ FFinite(n.sg[c]) /\ FFinite(n.so[c]),
          LAMBDA c : "finite", LAMBDA c : FStr(n.sw[c]))
  \cup Each("saturations sum to one", Cells(m),
          LAMBDA c : FLe(FAbs(FSub(tot(c), FDec("1"))), tol), LAMBDA c : "1", LAMBDA c : FStr(tot(c)))
  \cup Each("saturations within [0,1]", Cells(m),
          LAMBDA c : in01(n.sw[c]) /\ in01(n.sg[c]) /\ in01(n.so[c]),
          LAMBDA c : "[0,1]", LAMBDA c : FStr(n.sw[c]))
  \cup Each("water not below connate or start", Cells(m),
          LAMBDA c : NotBelow(n.sw[c], W[c].sw), LAMBDA c : Str(W[c].sw), LAMBDA c : FStr(n.sw[c]))
  \cup Each("gas not below critical or start", Cells(m),
          LAMBDA c : NotBelow(n.sg[c], W[c].sg), LAMBDA c : Str(W[c].sg), LAMBDA c : FStr(n.sg[c]))
  \cup Each("oil not below residual or start", Cells(m),
          LAMBDA c : NotBelow(n.so[c], W[c].so), LAMBDA c : Str(W[c].so), LAMBDA c : FStr(n.so[c]))

\* C02: in-place change of a phase = what its wells put in, as long as no limit acted anywhere
C02Clauses(m, s, dt, o, n) ==
  LET free == \A c \in Cells(m) : s.new[c].free
      put(k) == Raw(dt) \otimes NSum([i \in 1..Len(s.outs) |-> s.outs[i][k]])
      \* rounding: stored saturations, and the terms that were summed
      flux(k) == NSum([c \in Cells(m) |-> m.pv[c] \otimes NAbs(s.new[c].d[k])])
      tol(k, q) == NSum(<<Dec("1.5e-6") \otimes NSum(m.pv), Dec("3e-6") \otimes flux(k),
                      Dec("3e-6") \otimes (Raw(dt) \otimes NSum([i \in 1..Len(s.outs) |-> NAbs(s.outs[i][q])]))>>)
      got(x0, x1) == NSum([c \in Cells(m) |-> m.pv[c] \otimes Diff(Raw(x1[c]), Raw(x0[c]))])
      ok(x0, x1, q, k) == Within(got(x0, x1) \ominus put(q), tol(k, q))
  IN IF ~free THEN {}
     ELSE (IF ok(o.sw, n.sw, "qw", "w") THEN {}
           ELSE {Fail("water in place changes by the water put in", 0, Str(put("qw")), Str(got(o.sw, n.sw)))})
     \cup (IF ok(o.sg, n.sg, "qg", "g") THEN {}
           ELSE {Fail("gas in place changes by the gas put in", 0, Str(put("qg")), Str(got(o.sg, n.sg)))})

\* C03: every cell's saturations are the ones the transport equations give
SatClauses(m, s, n, S, tag) ==
       Each("water saturation" \o tag, S, LAMBDA c : Agrees(s.new[c].sw, n.sw[c]),
            LAMBDA c : Str(s.new[c].sw), LAMBDA c : FStr(n.sw[c]))
  \cup Each("gas saturation" \o tag, S, LAMBDA c : Agrees(s.new[c].sg, n.sg[c]),
            LAMBDA c : Str(s.new[c].sg), LAMBDA c : FStr(n.sg[c]))

\* C04: the accepted pressure satisfies every cell's volume balance
\* rounding of assembling and solving in binary32 (calibrated: see DESIGN.md), plus the solver's own tolerance
MatVec(m) == IF m.f64 THEN Dec("1e-6") ELSE Dec("4e-5")
SolverTol(m) == (Dec("12") \otimes m.cgtol)
\* multigrid stops at a residual relative to the right-hand side, in the norm scaled by the diagonal or not
AmgTol(m, rows, c) ==
  IF ~m.amg THEN C0
  ELSE LET sq(x) == x \otimes x
           plain == NSqrt(NSum([i \in 1..m.n |-> sq(rows[i].rhs)]))
           scaled == NSqrt(rows[c].diag) \otimes NSqrt(NSum([i \in 1..m.n |-> sq(rows[i].rhs) \oslash rows[i].diag]))
       IN m.amgtol \otimes NMax(plain, scaled)
\* a run that has blown up (pressures beyond 10^9 Pa): a row is as exact as the largest of the system
Wild(m, n) == \E c \in 1..m.n : FLt(FDec("1e9"), FAbs(n.P[c]))
RowTol(m, rows, wild, c) == NSum(<<MatVec(m) \otimes (IF wild THEN NSum([i \in 1..Len(rows) |-> rows[i].mag]) ELSE rows[c].mag), SolverTol(m) \otimes NSqrt(rows[c].diag), AmgTol(m, rows, c)>>)
RowClauses(m, v, dt, o, n, S, tag) ==
  LET rows == PressureStep(m, v, dt, o, n)
      wild == Wild(m, n)
      tol(c) == RowTol(m, rows, wild, c)
      mob == Mob(m, Field(o.P), Field(o.sw), Field(o.sg))
      open == {m.wells[i].cell : i \in {i \in 1..Len(m.wells) :
                 BhpSwitch(m, m.wells[i], v[i], Raw(o.P[m.wells[i].cell]), mob[m.wells[i].cell].t) = 2}}
      ok(c) == FFinite(n.P[c]) /\ Within(rows[c].res, tol(c))
  IN Each("pressure equation" \o tag, S \ open, ok,
          LAMBDA c : "0 within " \o Str(tol(c)), LAMBDA c : Str(rows[c].res))

\* well diagnostics: <<>> when never set
DiagClauses(m, s, o, n, W, tag) ==
  LET hasq(i) == m.f.has_pvt /\ m.wells[i].ctl = "rate" /\ ~m.wells[i].inj
      x(i) == s.outs[i]
      okq(i) == IF hasq(i) THEN Len(n.diag[i].q) = 1 /\ Agrees(x(i).q, n.diag[i].q[1])
                ELSE n.diag[i].q = o.diag[i].q
      oks(i) == IF hasq(i)
                THEN /\ Len(n.diag[i].surf) = 4
                     /\ Agrees(x(i).surf.oil, n.diag[i].surf[1]) /\ Agrees(x(i).surf.water, n.diag[i].surf[2])
                     /\ Agrees(x(i).surf.gas, n.diag[i].surf[3]) /\ Agrees(x(i).surf.liquid, n.diag[i].surf[4])
                ELSE n.diag[i].surf = o.diag[i].surf
  IN Each("reported well rate" \o tag, W, okq, LAMBDA i : Str(x(i).q),
          LAMBDA i : IF Len(n.diag[i].q) = 1 THEN FStr(n.diag[i].q[1]) ELSE "none")
  \cup Each("reported surface rates" \o tag, W, oks,
          LAMBDA i : IF hasq(i) THEN Str(x(i).surf.oil) \o Str(x(i).surf.water) \o Str(x(i).surf.gas) ELSE "unchanged",
          LAMBDA i : IF Len(n.diag[i].surf) = 4
                     THEN FStr(n.diag[i].surf[1]) \o " " \o FStr(n.diag[i].surf[2]) \o " " \o FStr(n.diag[i].surf[3])
                     ELSE "none")

\* reported surface rates never exceed a phase limit
LimitClauses(m, n, W) ==
  LET lim(i) == m.wells[i].lim
      le(i, k, j) == ~Has(lim(i), k) \/ Len(n.diag[i].surf) # 4
                     \/ FLe(n.diag[i].surf[j], FAdd(FMul(lim(i)[k], FDec("1.00001")), FDec("1e-9")))
  IN IF ~m.f.has_pvt THEN {}
     ELSE Each("phase limits", W,
          LAMBDA i : le(i, "wopr", 1) /\ le(i, "wlpr", 2) /\ le(i, "wgpr", 3) /\ le(i, "liqr", 4),
          LAMBDA i : "within limits",
          LAMBDA i : FStr(n.diag[i].surf[1]) \o " " \o FStr(n.diag[i].surf[2]) \o " " \o FStr(n.diag[i].surf[3]))

\* control mode reported by a rate well: "bhp" exactly when its minimum pressure took over
ModeClauses(m, v, s, o, n, W) ==
  LET mob == Mob(m, Field(o.P), Field(o.sw), Field(o.sg))
      sw_(i) == BhpSwitch(m, m.wells[i], v[i], Raw(o.P[m.wells[i].cell]), mob[m.wells[i].cell].t)
      bd(i) == s.outs[i].binds
      want(i) == IF m.wells[i].ctl # "rate" THEN {o.diag[i].mode}
                 ELSE IF sw_(i) = 1 \/ bd(i) = 1 THEN {"bhp"}
                 ELSE IF sw_(i) = 2 \/ bd(i) = 2 THEN {"bhp", "rate"} ELSE {"rate"}
  IN Each("reported control mode", W, LAMBDA i : n.diag[i].mode \in want(i),
          LAMBDA i : IF "bhp" \in want(i) THEN "bhp" ELSE "rate", LAMBDA i : n.diag[i].mode)

\* ledgers
\* exact arithmetic has no interval around delta
RoundedBy(delta) == IF Exact THEN Dec("1e-9") \otimes NAbs(delta) ELSE C0
LedgerOk(before, after, delta) ==
  \* the running totals are binary64; allow their own rounding
  LET d == FSub(after, before)
      t == FAdd(FMul(FDec("1e-12"), FAdd(FAbs(before), FAbs(after))), FDec("1e-9"))
  IN Within(Diff(delta, Raw(d)), Raw(t) \oplus RoundedBy(delta))
C11Clauses(m, o, n) ==
  LET mv == MassMoves(m, Field(n.P), Field(o.sw), Field(o.sg), Field(n.sw), Field(n.sg))
      row(ph, ki, ko) ==
        (IF LedgerOk(o.mass[ki], n.mass[ki], mv[ph].in) THEN {}
         ELSE {Fail("mass ledger " \o ph \o " in", 0, Str(mv[ph].in), FStr(FSub(n.mass[ki], o.mass[ki])))})
        \cup
        (IF LedgerOk(o.mass[ko], n.mass[ko], mv[ph].out) THEN {}
         ELSE {Fail("mass ledger " \o ph \o " out", 0, Str(mv[ph].out), FStr(FSub(n.mass[ko], o.mass[ko])))})
  IN row("water", "win", "wout") \cup row("oil", "oin", "oout") \cup row("gas", "gin", "gout")
C10Clauses(m, s, o, n) ==
  LET mv == ComponentMoves(m, s.outs)
      row(k) == IF LedgerOk(o.comp[k], n.comp[k], mv[k]) THEN {}
                ELSE {Fail("component ledger " \o k, 0, Str(mv[k]), FStr(FSub(n.comp[k], o.comp[k])))}
      bal(k, a, b) ==
        LET w == FSub(n.comp[a], n.comp[b])
            t == FAdd(FMul(FDec("1e-9"), FAdd(FAbs(n.comp[a]), FAbs(n.comp[b]))), FDec("1e-12"))
        IN IF FLe(FAbs(FSub(n.comp[k], w)), t) THEN {}
           ELSE {Fail("component accumulation " \o k, 0, FStr(w), FStr(n.comp[k]))}
  IN row("oin") \cup row("oout") \cup row("gin") \cup row("gout")
     \cup bal("oacc", "oin", "oout") \cup bal("gacc", "gin", "gout")

WellsWhere(m, pick(_)) == {i \in 1..Len(m.wells) : pick(m.wells[i])}
CellsOf(m, W) == {m.wells[i].cell : i \in W}
\* rate wells at reservoir conditions (or surface ones without a PVT table to convert with)
ResRate(m) == WellsWhere(m, LAMBDA w : w.ctl = "rate" /\ (~w.surface \/ ~m.f.has_pvt) /\ ~w.has_bmin)
SurfRate(m) == WellsWhere(m, LAMBDA w : w.ctl = "rate" /\ ((w.surface /\ m.f.has_pvt) \/ DOMAIN w.lim # {"none"}))
MinBhp(m) == WellsWhere(m, LAMBDA w : w.ctl = "rate" /\ ~w.inj /\ w.has_bmin)
Bhp(m) == WellsWhere(m, LAMBDA w : w.ctl = "bhp")

StepClauses(p, m, v, dt, o, n) ==
  LET s == Step(m, v, dt, o, n) IN
  CASE p = "C01" -> C01Clauses(m, o, n)
    [] p = "C02" -> C02Clauses(m, s, dt, o, n)
    [] p = "C03" -> SatClauses(m, s, n, Cells(m), "")
    [] p = "C04" -> RowClauses(m, v, dt, o, n, Cells(m), "")
    [] p = "C06" -> SatClauses(m, s, n, CellsOf(m, ResRate(m)), " at a rate well")
                    \cup RowClauses(m, v, dt, o, n, CellsOf(m, ResRate(m)), " at a rate well")
                    \cup DiagClauses(m, s, o, n, ResRate(m), "")
    [] p = "C07" -> SatClauses(m, s, n, CellsOf(m, SurfRate(m)), " at a surface-rate well")
                    \cup DiagClauses(m, s, o, n, SurfRate(m), " (surface)")
                    \cup LimitClauses(m, n, SurfRate(m))
    [] p = "C08" -> SatClauses(m, s, n, CellsOf(m, MinBhp(m)), " at a well with a minimum pressure")
                    \cup RowClauses(m, v, dt, o, n, CellsOf(m, MinBhp(m)), " at a well with a minimum pressure")
                    \cup DiagClauses(m, s, o, n, MinBhp(m), " (minimum pressure)")
                    \cup ModeClauses(m, v, s, o, n, MinBhp(m))
    [] p = "C09" -> SatClauses(m, s, n, CellsOf(m, Bhp(m)), " at a pressure-controlled well")
                    \cup RowClauses(m, v, dt, o, n, CellsOf(m, Bhp(m)), " at a pressure-controlled well")
    [] p = "C10" -> C10Clauses(m, s, o, n)
    [] p = "C11" -> C11Clauses(m, o, n)
    [] OTHER -> {}
StepProps == {"C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11"}
=============================================================================
