------------------------------- MODULE MCEnv -------------------------------
(* Exploration of Env for the parameters of the file IOEnv.LATTICE
   [id, cfg, pvt, limit, acts (action vectors), soils (oil saturations a step may lead to)]:
   every sequence of resets, actions, solver outcomes and resulting fields within the bounds.
   The physics of a step is left open here (a step may lead to any of the given fields):
   it is OilSim's.  Maximal behaviours are printed as their choices. *)
EXTENDS Env
VARIABLES cf, hist, got, f0,    \* f0: fields at the last reset; got: rewards since then
          M                     \* the model (never changes)
vars == <<ctl, fld, ep, cf, hist, got, f0, M>>
Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Par == [limit |-> Lat[cf].limit]
Start(m) == [w \in 1..Len(m.wells) |-> Raw(m.wells[w].val)]
Fld(m, so) == [P |-> [c \in 1..m.n |-> m.f.p0], sw |-> [c \in 1..m.n |-> m.f.sw0], so |-> [c \in 1..m.n |-> Raw(so)]]
Initial(m) == Fld(m, (C1 \ominus m.f.sw0) \ominus m.f.sg0)
Depth == IF IOEnv.DEPTH = "4" THEN 4 ELSE 3

Init == /\ cf \in 1..Len(Lat) /\ M = ModelOf(Lat[cf].cfg, Lat[cf].pvt, [none |-> 0]) /\ hist = <<>> /\ got = <<>>
        /\ ctl = Start(M) /\ fld = Initial(M) /\ f0 = fld
        /\ ep = [phase |-> "fresh", steps |-> 0]
Reset == /\ Len(hist) < Depth
         /\ hist' = Append(hist, [k |-> "reset"])
         /\ ctl' = Start(M) /\ fld' = Initial(M) /\ f0' = Initial(M) /\ ep' = Fresh /\ got' = <<>>
         /\ UNCHANGED cf
Step(a, ok, so) ==
  /\ Len(hist) < Depth /\ ep.phase = "running"
  /\ hist' = Append(hist, [k |-> "step", a |-> a, ok |-> ok])
  /\ ctl' = [w \in 1..Len(ctl) |-> Moved(M.wells[w], ctl[w], Raw(Lat[cf].acts[a][w]))]
  /\ fld' = IF ok THEN Fld(M, Lat[cf].soils[so]) ELSE fld
  /\ got' = IF ok THEN Append(got, Reward(M, fld, fld')) ELSE got
  /\ ep' = After(Par, ok)
  /\ UNCHANGED <<cf, f0>>
Next == (Reset \/ \E a \in 1..Len(Lat[cf].acts), so \in 1..Len(Lat[cf].soils), ok \in BOOLEAN : Step(a, ok, so)) /\ UNCHANGED M
Spec == Init /\ [][Next]_vars

\* an episode never outlives its limit, ends at the first failure, and starts from the configured model
Bounded == ep.steps <= Par.limit /\ (ep.phase = "running" => ep.steps < Par.limit)
Ended == (ep.phase = "over") =>
  \/ ep.steps = Par.limit
  \/ ~hist[Len(hist)].ok
\* the rewards add up to the oil that left since the reset
Telescopes == SurelyLe(NAbs(NSum(got) \ominus Reward(M, f0, fld)), Dec("1e-9"))
\* a zero action leaves the controls, an opposite one scales within the bounds
Bounds == \A w \in 1..Len(ctl) :
  LET w0 == Raw(M.wells[w].val) IN
  IF M.wells[w].ctl = "bhp" THEN SurelyLe(NAbs(ctl[w] \ominus w0), Bhp5 \otimes Int2N(Depth))
  ELSE SurelyLe(NAbs(ctl[w]), NAbs(w0) \otimes NPow(Dec("1.2"), Int2N(Depth)))
ResetRestores == [][ep'.steps = 0 /\ ep'.phase = "running" /\ hist' # hist => ctl' = Start(M) /\ fld' = Initial(M)]_vars
Emit == Len(hist) = Depth \/ ep.phase = "over" => PrintT(ToJson([cfg |-> Lat[cf].id, hist |-> hist]))
=============================================================================
