--------------------------- MODULE ConstructTrace ---------------------------
(* Conformance of recorded constructions with Construct.
   scenario: [id, cfg, pvt, ev]; events: res [r], wells [ok, r], fluid [ok, r], ready [r] *)
EXTENDS Construct, Conf
VARIABLE M                       \* the model of the document (never changes)
vars == <<sc, l, stage, M>>

Fine(s) == ValidWells(Data[s].cfg) /\ MustFluid(Data[s].cfg)
\* the model of a document; of one that must be rejected only what does not depend on the faulty part
ModelIn(s) ==
   ModelOf(IF ValidWells(Data[s].cfg) THEN Data[s].cfg ELSE [Data[s].cfg EXCEPT !.wells = <<>>], Data[s].pvt, [none |-> 0])
Cfg == Data[sc].cfg

Init == ConfInit /\ M = ModelIn(sc) /\ stage = "start"
Res == IsEvent("res") /\ Report(ReservoirClauses(M, Ev.r, RockC(Cfg))) /\ Begin
WellsEv ==
  /\ IsEvent("wells")
  /\ Report(If(Ev.ok = ValidWells(Cfg), Fail("wells accepted", 0, ToString(ValidWells(Cfg)), ToString(Ev.ok)))
            \cup (IF Ev.ok /\ ValidWells(Cfg) THEN WellClauses(M, Cfg, Ev.r) ELSE {}))
  /\ Wells(Ev.ok)
FluidEv ==
  /\ IsEvent("fluid")
  /\ Report(If(Ev.ok => MayFluid(Cfg), Fail("overfull pore space accepted", 0, Str(Filled(Cfg)), "accepted"))
            \cup If(MustFluid(Cfg) => Ev.ok, Fail("valid saturations rejected", 0, Str(Filled(Cfg)), "rejected"))
            \cup (IF Ev.ok THEN FluidClauses(M, Ev.r) ELSE {}))
  /\ FluidMade(Ev.ok)
ReadyEv ==
  /\ IsEvent("ready")
  /\ Report(If(Ev.ledger = <<>>, Fail("ledgers start at zero", 0, "0", ToString(Ev.ledger))))
  /\ Ready
Raised == IsEvent("raise") /\ Report({Fail("a valid model could not be built", 0, "", Ev.what)}) /\ UNCHANGED stage
Next == (Res \/ WellsEv \/ FluidEv \/ ReadyEv \/ Raised) /\ UNCHANGED M
Spec == Init /\ [][Next]_vars
=============================================================================
