------------------------------ MODULE PairTrace ------------------------------
(* Conformance of recorded pairs of runs with Pair.
   scenario: [id, pair: [kind, cells, wells], a: [cfg, pvt, ov], b: [cfg, pvt, ov], init, ev];
   events: pair [dt, v (controls of a), oka, okb, a, b: states of the two after the step], both
   started from the current state of a; raise [what].  The run goes on from a's state. *)
EXTENDS Pair, Conf
VARIABLES ma, mb                 \* the two models of the scenario (never change)
vars == <<st, ctl, mach, sc, l, ma, mb>>

Model(x) == ModelOf(x.cfg, x.pvt, x.ov)

Init == ConfInit /\ ma = Model(Data[sc].a) /\ mb = Model(Data[sc].b) /\ st = Data[sc].init /\ ctl = <<>> /\ mach = Idle
Both ==
  /\ IsEvent("pair")
  /\ Report(IF Ev.oka /\ Ev.okb
            THEN PairClauses(Data[sc].pair, ma, mb, [w \in 1..Len(Ev.v) |-> Raw(Ev.v[w])], Ev.dt, st, Ev.a, Ev.b)
            ELSE {})      \* whether a solver converges is its own affair
  /\ st' = Ev.a /\ UNCHANGED <<ctl, mach>>
Raised == IsEvent("raise") /\ Report({Fail("a step on a valid model raised an exception", 0, "", Ev.what)}) /\ UNCHANGED <<st, ctl, mach>>
Next == (Both \/ Raised) /\ UNCHANGED <<ma, mb>>
Spec == Init /\ [][Next]_vars
=============================================================================
