------------------------------- MODULE Weave -------------------------------
(* Several simulators side by side in one process.  Each machine has a schedule of
   operations (building it is the first); what a machine has in memory is a function of
   its own operations alone:

     Go(m)       the next operation of machine m (a step, a change of controls or limits and a step,
                 a step whose solver fails)
     Restart(m)  machine m is replaced by a new one, built from the same document and
                 given the fields of the old one
     Look(m)     results are read: properties, reports, pictures
     Noise       anything else the process may do: random numbers, other simulators

   mem[m] is the sequence of operations whose effect the fields of m show. *)
EXTENDS Naturals, Sequences

VARIABLES plan,     \* machine -> its operations
          mem,      \* machine -> operations in its fields
          since     \* machine -> how many of them were before the last restart (ledgers start again)
wvars == <<plan, mem, since>>

Machines == DOMAIN plan
Done(m) == Len(mem[m])
WInit(p) == plan = p /\ mem = [m \in DOMAIN p |-> <<>>] /\ since = [m \in DOMAIN p |-> 0]
Go(m) == Done(m) < Len(plan[m]) /\ mem' = [mem EXCEPT ![m] = Append(@, plan[m][Done(m) + 1])] /\ UNCHANGED <<plan, since>>
Restart(m) == Done(m) > 0 /\ since' = [since EXCEPT ![m] = Done(m)] /\ UNCHANGED <<plan, mem>>
Look(m) == Done(m) > 0 /\ UNCHANGED wvars
Noise == UNCHANGED wvars
\* the fields of a machine are those of its solo run after the same operations
Isolation == \A m \in Machines : mem[m] = SubSeq(plan[m], 1, Done(m)) /\ since[m] <= Done(m)
=============================================================================
