------------------------------- MODULE MCWeave -------------------------------
(* Every interleaving of Ops operations of each of two machines with up to Extra restarts,
   observations and noises.  Each is replayed on real simulators. *)
EXTENDS Weave, Json, IOUtils, TLC

VARIABLES hist, extra
Ops == atoi(IOEnv.OPS)
Extra == atoi(IOEnv.EXTRA)
Noises == {"rng", "other", "modes"}
Two == [m \in 1..2 |-> [i \in 1..Ops |-> <<m, i>>]]
Init == WInit(Two) /\ hist = <<>> /\ extra = 0
Note(k, m) == hist' = Append(hist, [k |-> k, m |-> m])
Op(m) == Go(m) /\ Note("go", m) /\ UNCHANGED extra
Aside(k, m) == extra < Extra /\ extra' = extra + 1 /\ Note(k, m)
Next == \E m \in Machines :
          \/ Op(m)
          \/ Restart(m) /\ Done(m) > since[m] /\ Aside("restart", m)
          \/ Look(m) /\ Aside("look", m)
          \/ m = 1 /\ Noise /\ \E n \in Noises : Aside(n, 0)
Spec == Init /\ [][Next]_<<wvars, hist, extra>>
Complete == \A m \in Machines : Done(m) = Len(plan[m])
Emit == Complete => PrintT(ToJson([hist |-> hist]))
=============================================================================
