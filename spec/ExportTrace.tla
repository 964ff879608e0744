---------------------------- MODULE ExportTrace ----------------------------
(* Conformance of recorded exports with Export.  scenario: [id, dims, d, init, ev]; events:
   change [st]; save [name, after, dir: what each file of the folder shows]; run [vtk, made, r, whole, after]; raise *)
EXTENDS Export, Conf
vars == <<sc, l, fields, files>>

Dims == Data[sc].dims
Size == Data[sc].d
Init == ConfInit /\ fields = Data[sc].init /\ files = [f \in {} |-> 0]
ChangeEv == IsEvent("change") /\ Change(Ev.st)
\* after an export every file of the folder is looked at again
Save == /\ IsEvent("save")
        /\ SaveAs(Ev.name)
        /\ Report(If(Ev.after = fields, Fail("an export changes the fields", 0, "unchanged", "changed"))
             \cup If(DOMAIN Ev.dir = DOMAIN files', Fail("exported files", 0, ToString(DOMAIN files'), ToString(DOMAIN Ev.dir)))
             \cup UNION {CellFileClauses(Dims, Size, files'[f], Ev.dir[f]) : f \in DOMAIN Ev.dir \cap DOMAIN files'})
RunEv == /\ IsEvent("run")
         /\ Report(If(Ev.made = Ev.vtk, Fail("the run exports when the modules are there", 0, ToString(Ev.vtk), ToString(Ev.made)))
              \cup If(Ev.whole, Fail("the rest of the report of a run that exports", 0, "complete", "incomplete"))
              \cup (IF Ev.made THEN PointFileClauses(Dims, Ev.after, Ev.r) ELSE {}))
         /\ fields' = Ev.after /\ UNCHANGED files
Raised == IsEvent("raise") /\ Report({Fail("an export raised an exception", 0, "", Ev.what)}) /\ UNCHANGED <<fields, files>>
Next == ChangeEv \/ Save \/ RunEv \/ Raised
Spec == Init /\ [][Next]_vars
=============================================================================
