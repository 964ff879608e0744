------------------------------ MODULE MCOilSim ------------------------------
(* Exhaustive exploration of OilSim in exact (binary64) arithmetic, on the small
   configurations of the file IOEnv.LATTICE:
     [id, cfg, pvt, ov, sw, sg, P, dts, ctls, calls, phys]
   dts: the step lengths a caller may ask for; ctls: the control vectors a user may
   set between calls; calls: bound on the number of calls; phys: solve the flow
   equations, or leave the state unchanged (step-control exploration).
   Every choice of outcomes of the pressure solves is explored.

   IOEnv.PROP selects the property whose clauses are checked on every accepted
   step.  With IOEnv.PRINT = "1" every maximal behaviour is printed as the list of
   choices that leads to it; harness/replay runs each on the real simulator and
   validates the recording with Trace.tla. *)
EXTENDS Solve, Json, IOUtils

VARIABLES cf,      \* which configuration
          calls,   \* calls made
          hist,    \* choices so far
          prev,    \* state, controls and length of the last accepted attempt
          M        \* the model of the configuration (never changes)
vars == <<st, ctl, mach, cf, calls, hist, prev, M>>

Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Prop == IOEnv.PROP
Factor(s) == LET sim == Get(Lat[s].cfg, "simulation", [none |-> 0]) IN Get(sim, "dt_reduction_factor", FDec("2"))

-----------------------------------------------------------------------------
Vals == [w \in 1..Len(ctl) |-> Raw(ctl[w])]
NoPrev == [on |-> FALSE]

Init ==
  /\ cf \in 1..Len(Lat)
  /\ M = ModelOf(Lat[cf].cfg, Lat[cf].pvt, Lat[cf].ov)
  /\ st = [P |-> Lat[cf].P, sw |-> Lat[cf].sw, sg |-> Lat[cf].sg,
           so |-> [c \in 1..Len(Lat[cf].P) |-> (C1 \ominus Raw(Lat[cf].sw[c])) \ominus Raw(Lat[cf].sg[c])],
           mass |-> ZeroLedger, comp |-> ZeroComp,
           diag |-> [i \in 1..Len(M.wells) |-> [q |-> <<>>, mode |-> "", surf |-> <<>>]]]
  /\ ctl = [w \in 1..Len(M.wells) |-> M.wells[w].val]
  /\ mach = Idle
  /\ calls = 0 /\ hist = <<>> /\ prev = NoPrev

Log(x) == hist' = Append(hist, x)
DoCall(i) == /\ calls < Lat[cf].calls
             /\ Call(Lat[cf].dts[i])
             /\ calls' = calls + 1 /\ Log([k |-> "call", i |-> i]) /\ prev' = NoPrev /\ UNCHANGED cf
DoFail == /\ AttemptFail(M.attempts, Factor(cf))
          /\ Log([k |-> "fail", i |-> 0]) /\ prev' = NoPrev /\ UNCHANGED <<cf, calls>>
DoOk == /\ mach.phase = "running" /\ ~Covered(mach) /\ mach.fails < M.attempts
        /\ LET len == AttemptLen(mach)
               nx == IF Lat[cf].phys THEN Accept(M, Vals, len, st) ELSE st
           IN AttemptOk(M.attempts, nx) /\ prev' = [on |-> TRUE, st |-> st, v |-> Vals, dt |-> len]
        /\ Log([k |-> "ok", i |-> 0]) /\ UNCHANGED <<cf, calls>>
DoReturn == /\ (ReturnOk \/ ReturnFail(M.attempts))
            /\ prev' = NoPrev /\ UNCHANGED <<cf, calls, hist>>
DoControl(i) == /\ calls > 0 /\ calls < Lat[cf].calls
                /\ hist # <<>> /\ hist[Len(hist)].k # "ctl"
                /\ Control(Lat[cf].ctls[i])
                /\ Log([k |-> "ctl", i |-> i]) /\ prev' = NoPrev /\ UNCHANGED <<cf, calls>>
Next == /\ \/ \E i \in 1..Len(Lat[cf].dts) : DoCall(i)
           \/ DoFail \/ DoOk \/ DoReturn
           \/ \E i \in 1..Len(Lat[cf].ctls) : DoControl(i)
        /\ UNCHANGED M
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the design.  The clauses that only compare with the specification's
   own formula hold by construction here; these say what the formulas must achieve. *)

Tol6 == FDec("1e-6")
CloseTo(a, b) == FLe(FAbs(FSub(a, b)), FMul(Tol6, FMax(FMax(FAbs(a), FAbs(b)), FDec("1e-9"))))
AtMost(a, b) == FLe(a, FAdd(b, FMul(Tol6, FMax(FAbs(a), FAbs(b)))))
OUTS == Step(M, prev.v, prev.dt, prev.st, st)
Well(i) == M.wells[i]
WIds == 1..Len(M.wells)
PV(c) == M.pv[c]
PerDay(x) == FMul(x, Day)
Cc(i) == Well(i).cell
MobNew == Mob(M, st.P, prev.st.sw, prev.st.sg)

\* C02/C03: no limit acted anywhere
AllFree == \A c \in 1..M.n : OUTS.new[c].free

\* C06: a rate injector that is not choked puts in exactly its rate, a rate producer takes exactly its rate
C06Inv == \A i \in WIds :
   LET w == Well(i) x == OUTS.outs[i] want == FMul(prev.v[i], M.scale) IN
   (w.ctl = "rate" /\ ~w.surface /\ ~w.has_bmin /\ ~M.f.has_pvt) =>
     /\ ~w.inj => CloseTo(PerDay(x.q), FSub(FZero, want))
     /\ w.inj => (FLe(FZero, want) => (AtMost(PerDay(x.q), want) /\ FLe(FZero, x.q)))
     /\ w.gas => x.qw = C0
     /\ (w.inj /\ ~w.gas) => x.qg = C0

\* C07: reported surface rates stay within every limit, and an unlimited, unchoked surface producer meets its target
C07Inv == M.f.has_pvt => \A i \in WIds :
   LET w == Well(i) x == OUTS.outs[i] lim(k) == IF Has(w.lim, k) THEN w.lim[k] ELSE FDec("1e300") IN
   (w.ctl = "rate" /\ ~w.inj) =>
     /\ AtMost(x.surf.oil, lim("wopr")) /\ AtMost(x.surf.water, lim("wlpr"))
     /\ AtMost(x.surf.gas, lim("wgpr")) /\ AtMost(x.surf.liquid, lim("liqr"))
     /\ CloseTo(x.surf.liquid, FAdd(x.surf.oil, x.surf.water))
     /\ (w.surface /\ FLe(FZero, prev.v[i])) =>
          LET got == CASE w.sphase = "oil" -> x.surf.oil [] w.sphase = "water" -> x.surf.water
                       [] w.sphase = "gas" -> x.surf.gas [] OTHER -> x.surf.liquid
          IN AtMost(got, FMul(prev.v[i], M.scale))

\* C08: the withdrawal never needs a bottom-hole pressure below the minimum
C08Inv == \A i \in WIds :
   LET w == Well(i) x == OUTS.outs[i] IN
   (w.ctl = "rate" /\ ~w.inj /\ w.has_bmin /\ FLe(FZero, prev.v[i])) =>
     LET drawn == FSub(FZero, x.q)
         most == FMul(FMul(w.wi, MobNew[Cc(i)].t), FMax(FSub(st.P[Cc(i)], w.bmin), FZero))
     IN AtMost(drawn, FAdd(most, FDec("1e-15"))) /\ AtMost(FDec("-1e-15"), drawn)
        /\ AtMost(PerDay(drawn), IF w.surface /\ M.f.has_pvt THEN FDec("1e300") ELSE FMul(prev.v[i], M.scale))

\* C09: a pressure-controlled well flows down its pressure difference, in proportion to index and mobility
C09Inv == \A i \in WIds :
   LET w == Well(i) x == OUTS.outs[i] IN
   w.ctl = "bhp" =>
     CloseTo(x.q, FMul(FMul(w.wi, MobNew[Cc(i)].t), FSub(FMul(prev.v[i], MPa), st.P[Cc(i)])))
     /\ (~w.inj => CloseTo(FAdd(FAdd(x.qw, x.qo), x.qg), x.q) \/ FLe(FAbs(x.q), FDec("1e-12")))

\* C10: component totals only grow, and a closed system books nothing
C10Inv == /\ \A k \in {"oin", "oout", "gin", "gout"} : FLe(prev.st.comp[k], st.comp[k])
          /\ M.wells = <<>> => st.comp = ZeroComp
\* C11: phase totals only grow; with oil, water and gas of one density in minus out is the same change of mass
C11Inv == /\ \A k \in DOMAIN st.mass : FLe(prev.st.mass[k], st.mass[k])
          /\ LET net(a, b) == FSub(FSub(st.mass[a], st.mass[b]), FSub(prev.st.mass[a], prev.st.mass[b]))
                 inplace(x0, x1, rho(_)) == FSum([c \in 1..M.n |-> FMul(FMul(FSub(x1[c], x0[c]), PV(c)), rho(st.P[c]))])
             IN /\ FLe(FAbs(FSub(net("win", "wout"), inplace(prev.st.sw, st.sw, LAMBDA p : RhoW(M.f, p)))),
                       FMul(Tol6, FAdd(FDec("1e-3"), FAdd(st.mass.win, st.mass.wout))))
                /\ FLe(FAbs(FSub(net("gin", "gout"), inplace(prev.st.sg, st.sg, LAMBDA p : RhoG(M.f, p)))),
                       FMul(Tol6, FAdd(FDec("1e-3"), FAdd(st.mass.gin, st.mass.gout))))

Design == prev.on /\ Lat[cf].phys =>
  LET bad == IF Prop \in StepProps
             THEN StepClauses(Prop, M, prev.v, prev.dt, prev.st, st) ELSE {}
      ok == bad = {}
            /\ (Prop = "C06" => C06Inv) /\ (Prop = "C07" => C07Inv) /\ (Prop = "C08" => C08Inv)
            /\ (Prop = "C09" => C09Inv) /\ (Prop = "C10" => C10Inv) /\ (Prop = "C11" => C11Inv)
  IN IF ok THEN TRUE ELSE PrintT(ToJson([design |-> Lat[cf].id, bad |-> bad])) /\ FALSE

\* C12/C13: a call never covers more than it was asked for, returns only when it covered everything
\* or used up its failures, and a failed call ends where it began
Control1213 == /\ mach.phase = "running" => FLe(FZero, FAdd(mach.rem, FMul(FDec("1e-9"), mach.dt)))
               /\ mach.phase = "running" => FLe(mach.cur, mach.dt) /\ mach.fails <= M.attempts
               /\ mach.phase = "running" => (Covered(mach) \/ mach.fails >= M.attempts \/ FLt(FZero, AttemptLen(mach)))
FailedCallRestores == [][ (mach.phase = "running" /\ mach'.phase = "idle")
                            => (IF Covered(mach) THEN st' = st ELSE st' = mach.snap) ]_vars
\* every call ends
Ends == (mach.phase = "running") ~> (mach.phase = "idle")
FairSpec == Spec /\ WF_vars((DoReturn \/ DoOk \/ DoFail) /\ UNCHANGED M)

Emit == (IOEnv.PRINT = "1" /\ mach.phase = "idle" /\ calls = Lat[cf].calls /\ (hist # <<>> => hist[Len(hist)].k # "ctl"))
           => PrintT(ToJson([cfg |-> Lat[cf].id, hist |-> hist]))
=============================================================================
