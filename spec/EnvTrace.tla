------------------------------ MODULE EnvTrace ------------------------------
(* Conformance of recorded episodes with Env.
   scenario: [id, cfg, pvt, par: [limit, dt], ev].
   Events: made [ctl, fld, spaces]; reset [ctl, fld, obs, info];
   act [a, ctl: controls the simulator step saw, dt: its length, ok];
   step [fld, ctl, obs, reward, terminated, truncated, converged]; raise [what]. *)
EXTENDS Env, Conf
VARIABLES pend,    \* the recorded simulator step the environment has not answered yet
          M        \* the model of the scenario (never changes)
vars == <<sc, l, ctl, fld, ep, pend, M>>

Par == Data[sc].par
None == [none |-> 0]

Start == [w \in 1..Len(M.wells) |-> M.wells[w].val]
StartField == [P |-> Rnd(M.f.p0), sw |-> Rnd(M.f.sw0), sg |-> Rnd(M.f.sg0)]
IsStart(f) == \A c \in 1..M.n : Agrees(StartField.P, f.P[c]) /\ Agrees(StartField.sw, f.sw[c]) /\ Agrees(StartField.sg, f.sg[c])

Init == ConfInit /\ M = ModelOf(Data[sc].cfg, Data[sc].pvt, [none |-> 0]) /\ ctl = <<>> /\ fld = None /\ ep = [phase |-> "fresh", steps |-> 0] /\ pend = None
C21(f) == Want("C21") => Report(f)
C22(f) == Want("C22") => Report(f)
ObsClauses(f, obs) ==
  LET want == Observe(M, f) IN
  IF Len(obs) # 2 * M.n THEN {Fail("length of the observation", 0, ToString(2 * M.n), ToString(Len(obs)))}
  ELSE Match("observation", obs, LAMBDA q : Rnd(want[q]))
FreshClauses(e) ==
  If(IsStart(e.fld), Fail("fields of a fresh episode", 0, "the configured initial state", "different"))
  \cup If(e.ctl = Start, Fail("controls of a fresh episode", 0, ToString([w \in 1..Len(Start) |-> FStr(Start[w])]), ToString([w \in 1..Len(e.ctl) |-> FStr(e.ctl[w])])))

Made ==
  /\ IsEvent("made")
  /\ C21(FreshClauses(Ev)
         \cup If(Ev.nobs = 2 * M.n /\ Ev.nact = Len(M.wells), Fail("sizes of the spaces", 0, ToString(<<2 * M.n, Len(M.wells)>>), ToString(<<Ev.nobs, Ev.nact>>))))
  /\ ctl' = Ev.ctl /\ fld' = Ev.fld /\ UNCHANGED <<ep, pend>>
Reset ==
  /\ IsEvent("reset")
  /\ C21(FreshClauses(Ev) \cup ObsClauses(Ev.fld, Ev.obs))
  /\ ctl' = Ev.ctl /\ fld' = Ev.fld /\ ep' = Fresh /\ pend' = None
\* the one simulator step of an environment step
Act ==
  /\ IsEvent("act")
  /\ C22(IF Len(Ev.ctl) # Len(ctl) THEN {Fail("number of wells", 0, "", "")}
         ELSE Each("control after the action", 1..Len(ctl),
                   LAMBDA w : Agrees(Moved(M.wells[w], Raw(ctl[w]), Raw(Ev.a[w])), Ev.ctl[w]),
                   LAMBDA w : Str(Moved(M.wells[w], Raw(ctl[w]), Raw(Ev.a[w]))), LAMBDA w : FStr(Ev.ctl[w])))
  /\ C21(If(pend = None, Fail("simulator steps of one environment step", ep.steps, "1", "more"))
         \cup If(FLe(FAbs(FSub(Ev.dt, FMul(Par.dt, FDec("86400")))), FMul(FDec("1e-9"), Ev.dt)),
                 Fail("length of the simulator step", ep.steps, FStr(FMul(Par.dt, FDec("86400"))), FStr(Ev.dt))))
  /\ ctl' = Ev.ctl /\ pend' = [ok |-> Ev.ok] /\ UNCHANGED <<fld, ep>>
Step ==
  /\ IsEvent("step")
  /\ LET ok == IF pend = None THEN Ev.converged ELSE pend.ok
         want == Outcome(Par, ok)
         rew == Reward(M, fld, Ev.fld)
     IN /\ C21(If(pend # None, Fail("environment step without a simulator step", ep.steps, "", ""))
               \cup If(Ev.converged = want.converged, Fail("info: converged", ep.steps, ToString(want.converged), ToString(Ev.converged)))
               \cup If(Ev.terminated = want.terminated, Fail("terminated", ep.steps, ToString(want.terminated), ToString(Ev.terminated)))
               \cup If(Ev.truncated = want.truncated, Fail("truncated", ep.steps, ToString(want.truncated), ToString(Ev.truncated)))
               \cup If(ok \/ Ev.reward = Penalty, Fail("penalty of a failed step", ep.steps, FStr(Penalty), FStr(Ev.reward)))
               \cup If(ok \/ Ev.fld = fld, Fail("fields after a failed step", ep.steps, "unchanged", "changed"))
               \cup ObsClauses(Ev.fld, Ev.obs))
        /\ C22((IF ok THEN If(Agrees(rew, Ev.reward), Fail("reward", ep.steps, Str(rew), FStr(Ev.reward))) ELSE {})
               \cup If(Ev.ctl = ctl, Fail("controls after the step", ep.steps, "as the action set them", "different")))
        /\ ep' = After(Par, ok)
  /\ fld' = Ev.fld /\ ctl' = Ev.ctl /\ pend' = None
Raised == IsEvent("raise") /\ Report({Fail("the environment raised an exception", ep.steps, "", Ev.what)}) /\ UNCHANGED <<ctl, fld, ep, pend>>
Next == (Made \/ Reset \/ Act \/ Step \/ Raised) /\ UNCHANGED M
Spec == Init /\ [][Next]_vars
=============================================================================
