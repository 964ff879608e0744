-------------------------------- MODULE Env --------------------------------
(* The reinforcement-learning environment: an episode over a reservoir model.
   The agent's action changes the controls of the wells, one simulator step follows, the
   reward is the oil mass that left the reservoir.
   m: the model (Config!ModelOf); par: [limit (steps of an episode), dt (days, raw)]. *)
EXTENDS Verdict

VARIABLES ctl,     \* control values of the wells, as configured units
          fld,     \* [P, sw, sg, so]
          ep       \* [phase: "fresh" | "running" | "over", steps]

Rate20 == Dec("0.2")
Bhp5 == Dec("5")
\* +-20 % of the current rate, +-5 MPa of the current pressure, in proportion to the action
Moved(w, v, a) == IF w.ctl = "rate" THEN v \oplus ((v \otimes Rate20) \otimes a)
                  ELSE IF w.ctl = "bhp" THEN v \oplus (Bhp5 \otimes a)
                  ELSE v
\* oil in place at reservoir conditions (kg)
OilMass(m, f) == NSum([c \in 1..m.n |-> (((m.phi \otimes Raw(f.so[c])) \otimes RhoO(m.f, Raw(f.P[c]))) \otimes m.vol)])
Mega == Dec("1e6")
Ten == Dec("1e7")
Reward(m, before, after) == (OilMass(m, before) \ominus OilMass(m, after)) \oslash Mega
Penalty == FDec("-1000")
\* pressures in 10 MPa, then water saturations, cell by cell
Observe(m, f) == [q \in 1..(2 * m.n) |-> IF q <= m.n THEN Raw(f.P[q]) \oslash Ten ELSE Raw(f.sw[q - m.n])]

\* [reward is the oil mass, terminated, truncated, converged]
Outcome(par, ok) ==
  [converged |-> ok, terminated |-> ~ok \/ ep.steps + 1 >= par.limit, truncated |-> FALSE]
Fresh == [phase |-> "running", steps |-> 0]
After(par, ok) ==
  IF ~ok THEN [ep EXCEPT !.phase = "over"]
  ELSE [phase |-> IF ep.steps + 1 >= par.limit THEN "over" ELSE "running", steps |-> ep.steps + 1]
=============================================================================
