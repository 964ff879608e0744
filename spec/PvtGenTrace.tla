---------------------------- MODULE PvtGenTrace ----------------------------
(* Conformance of recorded requests with PvtGen.  scenario: [id, ev]; events:
   make [given, doc]; write [file, given, doc]; read [file, doc, ok, r: table values]; raise [what] *)
EXTENDS PvtGen, Conf
vars == <<sc, l, disk>>

Init == ConfInit /\ disk = [f \in {} |-> 0]
Make == /\ IsEvent("make")
        /\ Report(TableClauses(ParamsOf(Ev.given), Ev.doc))
        /\ UNCHANGED disk
WriteEv == /\ IsEvent("write")
           /\ Report(TableClauses(ParamsOf(Ev.given), Ev.doc))
           /\ Write(Ev.file, Ev.given)
ReadEv == /\ IsEvent("read")
          /\ Report(TableClauses(ParamsOf(disk[Ev.file]), Ev.doc)
                    \cup If(Ev.ok, Fail("a generated table is accepted by the fluid", 0, "accepted", "rejected"))
                    \cup (IF Ev.ok /\ ValidTable(Ev.doc) THEN PvtClauses(PvtOf(Ev.doc), Ev.r) ELSE {}))
          /\ UNCHANGED disk
Raised == IsEvent("raise") /\ Report({Fail("the generator raised an exception", 0, "", Ev.what)}) /\ UNCHANGED disk
Next == Make \/ WriteEv \/ ReadEv \/ Raised
Spec == Init /\ [][Next]_vars
=============================================================================
