------------------------------ MODULE WeaveTrace ------------------------------
(* Conformance of recorded interleavings with Weave.
   scenario: [id, solo: machine -> <<[st, ok] after its 1st operation, ...>>, docs, ev];
   events: go/restart/look [m], rng/other/modes; each with st: the state of every machine
   afterwards (<<>> when not built yet) and docs: fingerprints of the documents the machines
   were built from; raise [what]. *)
EXTENDS Conf, Weave

S == Data[sc]
Fields == {"P", "sw", "sg", "so"}
First(a, b) == CHOOSE c \in 1..Len(a) : c > Len(b) \/ a[c] # b[c]
Differ(m, name, a, b) ==
  IF a = b THEN {}
  ELSE {Fail(name, m, IF Len(a) > 0 THEN "cell " \o ToString(First(a, b)) \o ": " \o FStr(a[First(a, b)]) ELSE "",
             IF Len(b) >= First(a, b) THEN FStr(b[First(a, b)]) ELSE "missing")}
What(m) == IF m = Ev.m THEN Ev.k \o " of a machine: " ELSE Ev.k \o " changed another machine: "
\* machine m as seen after the event, against its solo run
Same(m, d, s) ==
  IF d = 0 THEN IF Ev.st[m] = <<>> THEN {} ELSE {Fail("harness", m, "", "")}
  ELSE LET x == Ev.st[m][1]  y == S.solo[m][d].st IN
    UNION {Differ(m, What(m) \o f, y[f], x[f]) : f \in Fields}
    \cup (IF s > 0 THEN {} ELSE        \* totals count from the restart
          UNION {If(x.mass[f] = y.mass[f], Fail(What(m) \o "mass total " \o f, m, FStr(y.mass[f]), FStr(x.mass[f]))) : f \in DOMAIN y.mass}
          \cup UNION {If(x.comp[f] = y.comp[f], Fail(What(m) \o "component total " \o f, m, FStr(y.comp[f]), FStr(x.comp[f]))) : f \in DOMAIN y.comp})
    \cup (IF s = d \/ ~S.solo[m][d].ok THEN {}
          ELSE If(x.diag = y.diag, Fail(What(m) \o "well reports", m, "", "")))
After == UNION {Same(m, Len(mem'[m]), since'[m]) : m \in Machines}
         \cup If(Ev.docs = S.docs, Fail(Ev.k \o " changed a configuration document", 0, "", ""))
MGo == /\ IsEvent("go") /\ Go(Ev.m)
      /\ Report(After \cup If(Ev.ok = S.solo[Ev.m][Len(mem'[Ev.m])].ok,
                Fail("go: a step converges alone but not here, or the reverse", Ev.m, ToString(~Ev.ok), ToString(Ev.ok))))
MRestart == IsEvent("restart") /\ Restart(Ev.m) /\ Report(After)
MLook == IsEvent("look") /\ Look(Ev.m) /\ Report(After)
MNoise == l <= Len(S.ev) /\ Ev.k \in {"rng", "other", "modes"} /\ IsEvent(Ev.k) /\ Noise /\ Report(After)
Raised == IsEvent("raise") /\ UNCHANGED wvars
          /\ Report({Fail("an operation raised an exception next to other machines", 0, "", Ev.what)})
Init == ConfInit /\ WInit([m \in 1..Len(S.solo) |-> [i \in 1..Len(S.solo[m]) |-> <<m, i>>]])
Next == MGo \/ MRestart \/ MLook \/ MNoise \/ Raised
Spec == Init /\ [][Next]_<<sc, l, wvars>>
=============================================================================
