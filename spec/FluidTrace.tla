----------------------------- MODULE FluidTrace -----------------------------
(* Conformance of recorded evaluations with FluidSys.
   scenario: [id, fluid, pvt, init, ev]; init and the state: [p, sw, sg] *)
EXTENDS FluidSys, Conf
VARIABLES st, fl, tab            \* fields; the fluid and the table of the scenario (never change)
vars == <<sc, l, st, fl, tab>>

FluidIn(s) == IF Has(Data[s], "fluid") THEN FluidOf(Data[s].fluid, Data[s].pvt) ELSE [none |-> 0]
TableIn(s) == IF Len(Data[s].pvt) > 0 /\ ValidTable(Data[s].pvt[1]) THEN PvtOf(Data[s].pvt[1]) ELSE NoPvt

Init == ConfInit /\ st = Data[sc].init /\ fl = FluidIn(sc) /\ tab = TableIn(sc)
Set == IsEvent("set") /\ st' = Ev.st

\* what an evaluation answers: one clause set per kind of event
Answer(k, p, clauses) ==
  /\ IsEvent(k)
  /\ Want(p) => Report(clauses
       \cup If(Ev.after = st, Fail("an evaluation changes the fields", 0, "unchanged", "changed")))
  /\ st' = Ev.after
Kr == Answer("kr", "C16", KrClauses(fl, Ev.r) \cup If(Ev.cur => (Ev.r.sw = st.sw /\ Ev.r.sg = st.sg), Fail("recorder", 0, "", "")))
Dkr == Answer("dkr", "C16", DkrClauses(fl, Ev.r))
PcA == Answer("pc", "C17", PcClauses(fl, Ev.r))
Pvt_ == Answer("pvt", "C18", PvtClauses(tab, Ev.r))
Load == Answer("load", "C18", If(Ev.ok = ValidTable(Ev.doc), Fail("table accepted exactly when its columns are complete", 0, ToString(ValidTable(Ev.doc)), ToString(Ev.ok))))
Den == Answer("den", "C19", DenClauses(fl, Ev.r))
Cur == Answer("cur", "C19", CurClauses(fl, st.p, Ev.r))
Ct == Answer("ct", "C19", CtClauses(fl, Ev.r))
Raised == IsEvent("raise") /\ Report({Fail("an evaluation raised an exception", 0, "", Ev.what)}) /\ UNCHANGED st

Next == (Set \/ Kr \/ Dkr \/ PcA \/ Pvt_ \/ Load \/ Den \/ Cur \/ Ct \/ Raised) /\ UNCHANGED <<fl, tab>>
Spec == Init /\ [][Next]_vars
=============================================================================
