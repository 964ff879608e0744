-------------------------------- MODULE Conf --------------------------------
(* Shared by the conformance modules: recorded histories as behaviours.

   IOEnv.TRACE names a file with a list of scenarios [id, ..., ev].  A scenario
   is an initial state; its events are consumed one by one, each by the action of
   the specification it records.  A clause that does not hold is printed and the
   run goes on from what was observed. *)
EXTENDS Verdict

VARIABLES sc, l                  \* scenario, next event

Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP
Want(p) == Prop = "ALL" \/ Prop = p
Report(fails) == \A x \in fails :
  PrintT(ToJson([fail |-> Data[sc].id, ev |-> l, clause |-> x.clause, at |-> x.at, want |-> x.want, got |-> x.got]))
ConfInit == sc \in 1..Len(Data) /\ l = 1
Ev == Data[sc].ev[l]
IsEvent(k) == l <= Len(Data[sc].ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED sc
\* every scenario is consumed to its end (the runner checks this line)
Consumed == l = Len(Data[sc].ev) + 1
Finished == Consumed => PrintT(ToJson([done |-> Data[sc].id]))
=============================================================================
