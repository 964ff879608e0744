------------------------------ MODULE RunLoop ------------------------------
(* One simulation run: as many whole steps as fit into the total time, pictures at
   every save interval, a stop at the first step that fails, then the report.
   par: [total, dt (days, raw), interval, fps (integers), npz, full (BOOLEAN)] *)
EXTENDS Verdict

VARIABLE run     \* [phase, i: accepted steps, saved: steps pictured, out: report parts written]

\* 0.3 / 0.1 is 3 steps although the quotient in binary is below 3
Steps(par) == FFloor(FAdd(FDiv(par.total, par.dt), FDec("1e-9")))
Pictures(par) == par.interval < Steps(par)
Due(par, i) == Pictures(par) /\ i > 0 /\ i % par.interval = 0
Owed(par) == IF ~Due(par, run.i) THEN FALSE ELSE IF run.saved = <<>> THEN TRUE ELSE run.saved[Len(run.saved)] # run.i
Animated(par) == Pictures(par) /\ par.fps > 0
Report0(par) == {"txt", "final"} \cup (IF par.npz THEN {"npz"} ELSE {}) \cup (IF Animated(par) THEN {"gif"} ELSE {})
\* the frames of the animation: pictured steps in order, then the final picture (0)
Frames == Append(run.saved, 0)

Start == [phase |-> "loop", i |-> 0, saved |-> <<>>, out |-> {}]

CanStep(par) == run.phase = "loop" /\ run.i < Steps(par) /\ ~Owed(par)
StepOk(par) == CanStep(par) /\ run' = [run EXCEPT !.i = @ + 1]
StepFails(par) == CanStep(par) /\ run' = [run EXCEPT !.phase = "stopped"]
CanPicture(par) == run.phase = "loop" /\ Owed(par)
Picture(par) == CanPicture(par) /\ run' = [run EXCEPT !.saved = Append(@, run.i)]
LoopOver(par) == run.phase = "stopped" \/ (run.phase = "loop" /\ run.i = Steps(par) /\ ~Owed(par))
CanWrite(par, k) == LoopOver(par) /\ k \in Report0(par) \ run.out /\ (k = "gif" => "final" \in run.out)
Write(par, k) == CanWrite(par, k) /\ run' = [run EXCEPT !.out = @ \cup {k}]
CanEnd(par) == LoopOver(par) /\ run.out = Report0(par)
End(par) == CanEnd(par) /\ run' = [run EXCEPT !.phase = "done"]

\* files of the results directory: step pictures by number, the rest by kind
Files(par) == [pictures |-> run.saved, parts |-> Report0(par)]
=============================================================================
