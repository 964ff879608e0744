-------------------------------- MODULE Trace --------------------------------
(* Conformance: runs recorded from the real simulator are behaviours of OilSim.

   The file IOEnv.TRACE holds a list of scenarios
     [id, cfg, pvt, ov, init, ev, phys]
   cfg/pvt/ov: the configuration documents; init: the observable state right
   after construction; ev: the recorded events.  Every scenario is its own
   initial state, so TLC validates them in parallel.

   Each event is matched with its action of OilSim.  What the action allows is
   split into named clauses, each owned by one property; a clause that does not
   hold is printed and the run continues from the observed state, so the rest
   of the trace is still checked.  Only clauses of property IOEnv.PROP are
   evaluated (all for PROP = ALL). *)
EXTENDS Clauses, Conf

VARIABLE md                      \* the model of the scenario (never changes)
vars == <<st, ctl, mach, sc, l, md>>

Most(s) == md.attempts
Factor(s) == LET sim == Get(Data[s].cfg, "simulation", [none |-> 0]) IN Get(sim, "dt_reduction_factor", FDec("2"))

Near(a, b, scale) == FLe(FAbs(FSub(a, b)), FMul(FDec("1e-7"), scale))

Init ==
  /\ ConfInit
  /\ st = Data[sc].init
  /\ md = ModelOf(Data[sc].cfg, Data[sc].pvt, Data[sc].ov)
  /\ ctl = [w \in 1..Len(md.wells) |-> md.wells[w].val]
  /\ mach = Idle

\* length of an attempt: what is left, or the current cut length
LenClauses == IF ~Want("C12") THEN {}
  ELSE IF mach.phase # "running" THEN {Fail("attempt outside a step", 0, "", "")}
  ELSE If(Near(Ev.dt, AttemptLen(mach), mach.dt),
          Fail("length of the attempt", mach.fails, FStr(AttemptLen(mach)), FStr(Ev.dt)))
  \cup If(mach.fails < Most(sc), Fail("attempt after the failure budget", mach.fails, "", FStr(Ev.dt)))
  \cup If(~Covered(mach), Fail("attempt after the whole step is covered", mach.fails, "", FStr(Ev.dt)))

TCall == /\ IsEvent("call")
         /\ Call(Ev.dt)

TFail == /\ IsEvent("fail")
         /\ Report(LenClauses)
         /\ IF LenClauses = {} THEN AttemptFail(Most(sc), Factor(sc))
            ELSE /\ mach' = [mach EXCEPT !.cur = FDiv(Ev.dt, Factor(sc)), !.fails = @ + 1]
                 /\ UNCHANGED <<st, ctl>>

Props == IF Prop = "ALL" THEN StepProps ELSE {Prop} \cap StepProps
TSub == /\ IsEvent("sub")
        /\ Report(LenClauses)
        /\ Data[sc].phys =>
             \A p \in Props :
               Report(StepClauses(p, md, [w \in 1..Len(ctl) |-> Raw(ctl[w])], Ev.dt, st, Ev.st))
        /\ st' = Ev.st
        /\ mach' = [mach EXCEPT !.rem = FSub(@, Ev.dt)]
        /\ UNCHANGED ctl

\* the state a caller sees after the call
SameState(a, b) ==
  [P |-> a.P = b.P, saturations |-> a.sw = b.sw /\ a.sg = b.sg /\ a.so = b.so,
   mass |-> a.mass = b.mass, components |-> a.comp = b.comp, wells |-> a.diag = b.diag]
RetClauses ==
  LET want == IF Ev.ok THEN st ELSE mach.snap
      same == SameState(want, Ev.st)
  IN (IF ~Want("C12") THEN {}
      ELSE IF Ev.ok THEN If(Near(mach.rem, FZero, mach.dt), Fail("the accepted step covers the whole dt", 0, FStr(mach.dt), FStr(FSub(mach.dt, mach.rem))))
      ELSE If(mach.fails >= Most(sc), Fail("reported failure before the failure budget was used", mach.fails, "", "")))
  \cup (IF ~Want("C13") THEN {}
        ELSE {Fail(IF Ev.ok THEN "accepted state is what the call leaves" ELSE "failed step leaves everything unchanged", 0, k, "differs") :
                k \in {k \in DOMAIN same : ~same[k]}}
          \cup (IF Ev.ok THEN If(Near(mach.rem, FZero, mach.dt), Fail("success reported although the step did not converge", 0, "FALSE", "TRUE"))
                ELSE If(~Near(mach.rem, FZero, mach.dt), Fail("failure reported although the step was completed", 0, "TRUE", "FALSE"))))
TRet == /\ IsEvent("ret")
        /\ Report(RetClauses)
        /\ IF RetClauses = {} /\ Ev.ok /\ Covered(mach) THEN ReturnOk
           ELSE IF RetClauses = {} /\ ~Ev.ok /\ mach.fails >= Most(sc) /\ ~Covered(mach) /\ Ev.st = mach.snap THEN ReturnFail(Most(sc))
           ELSE st' = Ev.st /\ mach' = Idle /\ UNCHANGED ctl

\* a call on a valid model must not raise
TRaise == /\ IsEvent("raise")
          /\ Report({Fail("a step on a valid model raised an exception", 0, "", Ev.what)})
          /\ mach' = Idle /\ UNCHANGED <<st, ctl>>

TCtl == IsEvent("ctl") /\ Control(Ev.v)
TSet == IsEvent("set") /\ Place(Ev.P, Ev.sw, Ev.sg, Ev.so)

Next == (TCall \/ TFail \/ TSub \/ TRet \/ TRaise \/ TCtl \/ TSet) /\ UNCHANGED md
Spec == Init /\ [][Next]_vars

=============================================================================
