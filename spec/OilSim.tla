------------------------------- MODULE OilSim -------------------------------
(* The simulator as a state machine.

   st    what a user can observe: fields, ledgers, well diagnostics
   ctl   current control value of every well (m3/day or MPa)
   mach  progress of the step call being executed

   A call Call(dt) asks to advance by dt.  It makes attempts: a pressure solve
   either converges (AttemptOk: pressure, then saturations and ledgers move
   forward by the attempted length) or does not (AttemptFail: nothing moves, the
   length is cut).  ReturnOk ends the call once the whole dt is covered,
   ReturnFail once the failure budget is used up, with the state as it was at
   the call. *)
EXTENDS Flow

VARIABLES st, ctl, mach
simvars == <<st, ctl, mach>>

Idle == [phase |-> "idle"]
Tiny9 == FDec("1e-9")
FZero == FDec("0")

ZeroLedger == [win |-> FZero, wout |-> FZero, oin |-> FZero, oout |-> FZero, gin |-> FZero, gout |-> FZero]
ZeroComp == [oin |-> FZero, oout |-> FZero, gin |-> FZero, gout |-> FZero, oacc |-> FZero, gacc |-> FZero]

AttemptLen(k) == FMin(k.cur, k.rem)
Covered(k) == FLe(k.rem, FMul(Tiny9, k.dt))

Call(dt) ==
  /\ mach.phase = "idle"
  /\ mach' = [phase |-> "running", dt |-> dt, rem |-> dt, cur |-> dt, fails |-> 0, snap |-> st]
  /\ UNCHANGED <<st, ctl>>

\* factor: the raw reduction factor; most: failure budget
AttemptFail(most, factor) ==
  /\ mach.phase = "running" /\ ~Covered(mach) /\ mach.fails < most
  /\ mach' = [mach EXCEPT !.cur = FDiv(AttemptLen(mach), factor), !.fails = @ + 1]
  /\ UNCHANGED <<st, ctl>>

\* next: the observable state after the accepted attempt
AttemptOk(most, next) ==
  /\ mach.phase = "running" /\ ~Covered(mach) /\ mach.fails < most
  /\ mach' = [mach EXCEPT !.rem = FSub(mach.rem, AttemptLen(mach))]
  /\ st' = next
  /\ UNCHANGED ctl

ReturnOk ==
  /\ mach.phase = "running" /\ Covered(mach)
  /\ mach' = Idle
  /\ UNCHANGED <<st, ctl>>

ReturnFail(most) ==
  /\ mach.phase = "running" /\ ~Covered(mach) /\ mach.fails >= most
  /\ st' = mach.snap
  /\ mach' = Idle
  /\ UNCHANGED ctl

\* between calls the user (or the agent) may change controls
Control(v) == mach.phase = "idle" /\ ctl' = v /\ UNCHANGED <<st, mach>>
\* and place other fields; the ledgers and the well diagnostics stay
Place(P, sw, sg, so) ==
  /\ mach.phase = "idle"
  /\ st' = [st EXCEPT !.P = P, !.sw = sw, !.sg = sg, !.so = so]
  /\ UNCHANGED <<ctl, mach>>
=============================================================================
