----------------------------- MODULE MCRunLoop -----------------------------
(* Exploration of RunLoop for the parameters of the file IOEnv.LATTICE
   [id, total, dt, interval, fps, npz, full]; every step may fail.
   Every completed behaviour is printed: its parameters and its step outcomes. *)
EXTENDS RunLoop

VARIABLES cf, outcomes
vars == <<run, cf, outcomes>>
Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
P == Lat[cf]

Init == cf \in 1..Len(Lat) /\ run = Start /\ outcomes = <<>>
Ok == StepOk(P) /\ outcomes' = Append(outcomes, TRUE) /\ UNCHANGED cf
Fails == StepFails(P) /\ outcomes' = Append(outcomes, FALSE) /\ UNCHANGED cf
Rest == (Picture(P) \/ (\E k \in Report0(P) : Write(P, k)) \/ End(P)) /\ UNCHANGED <<cf, outcomes>>
Next == Ok \/ Fails \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TypeOK == /\ run.phase \in {"loop", "stopped", "done"} /\ run.i \in 0..Steps(P)
          /\ \A k \in 1..Len(run.saved) : run.saved[k] \in 1..run.i
\* the clock never passes the total, and no further whole step would have fitted
Clock == LET tot == FMul(P.total, FDec("1.00000001")) IN
         /\ FLe(FMul(FInt(run.i), P.dt), FAdd(tot, FDec("1e-8")))
         /\ FLt(tot, FAdd(FMul(FInt(Steps(P) + 1), P.dt), FMul(FDec("1e-7"), P.total)))
\* pictures: exactly the multiples of the interval reached, each once, in order
Multiples == LET due == SelectSeq([k \in 1..run.i |-> k], LAMBDA k : Due(P, k))
             IN run.saved = due \/ (Owed(P) /\ Append(run.saved, run.i) = due)
FailureStops == \A k \in 1..Len(outcomes) : ~outcomes[k] => k = Len(outcomes) /\ run.phase # "loop"
Complete == run.phase = "done" =>
  /\ run.out = Report0(P)
  /\ Len(outcomes) = Steps(P) \/ ~outcomes[Len(outcomes)]
  /\ run.i = Cardinality({k \in 1..Len(outcomes) : outcomes[k]})
  /\ "gif" \in run.out => Len(Frames) = 1 + run.i \div P.interval
Emit == run.phase = "done" => PrintT(ToJson([cfg |-> P.id, hist |-> outcomes]))
Ends == <>(run.phase = "done")
=============================================================================
