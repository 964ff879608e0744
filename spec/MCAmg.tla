-------------------------------- MODULE MCAmg --------------------------------
(* Histories of solves over the groups of systems of IOEnv.LATTICE
   [id, systems: <<[m, b]>>, options: <<[theta, max_levels, coarsest, tol, cycles]>>], every
   choice of coarse points explored. *)
EXTENDS Amg, Json, IOUtils
VARIABLES g, hist, ans       \* ans: last answer [i, o, x, conv, falls: every cycle lowered the energy of the error]
vars == <<cache, g, hist, ans>>
Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Depth == atoi(IOEnv.DEPTH)
Sys(i) == Lat[g].systems[i]
Opt(o) == Lat[g].options[o]
Init == AInit /\ g \in 1..Len(Lat) /\ hist = <<>> /\ ans = <<>>

Met(M, b, x, tol) == Lt(Norm(Residual(M, b, x)), FMul(tol, Norm(b)))
RECURSIVE Run(_, _, _, _, _, _, _, _, _)
Run(M, P, G, b, sol, x, tol, k, falls) ==
  IF Met(M, b, x, tol) THEN [x |-> x, conv |-> TRUE, falls |-> falls]
  ELSE IF k = 0 THEN [x |-> x, conv |-> FALSE, falls |-> falls]
  ELSE LET y == TLCEval(Cycle(M, P, G, b, x))
           now == Energy(M, Minus(sol, x))
       IN Run(M, P, G, b, sol, y, tol, k - 1, falls /\ FLe(Energy(M, Minus(sol, y)), FAdd(FMul(now, FDec("1.000001")), FMul(FDec("1e-18"), Energy(M, sol)))))
Sol == TLCEval([q \in 1..Len(Lat) |-> [i \in 1..Len(Lat[q].systems) |-> Direct(Lat[q].systems[i].m, Lat[q].systems[i].b)]])
Splits == TLCEval([q \in 1..Len(Lat) |-> [i \in 1..Len(Lat[q].systems) |-> [o \in 1..Len(Lat[q].options) |->
            LET M == Lat[q].systems[i].m  t == Lat[q].options[o].theta IN {[C |-> C, P |-> Interpolation(M, t, C)] : C \in Coarse(M, t)}]]])
Keys == TLCEval([q \in 1..Len(Lat) |-> [i \in 1..Len(Lat[q].systems) |-> [o \in 1..Len(Lat[q].options) |-> Key(Lat[q].systems[i].m, Lat[q].options[o])]]])
SolveAct(i, o) ==
  LET M == Sys(i).m  b == Sys(i).b  k == Keys[g][i][o] IN
  /\ Len(hist) < Depth /\ hist' = Append(hist, [s |-> i, o |-> o]) /\ UNCHANGED g
  /\ IF M.n <= Opt(o).coarsest \/ Splits[g][i][o] = {}
     THEN /\ UNCHANGED cache
          /\ ans' = <<[i |-> i, o |-> o, x |-> Sol[g][i], conv |-> TRUE, falls |-> TRUE]>>
     ELSE \E h \in (IF k \in DOMAIN cache THEN {cache[k]} ELSE Splits[g][i][o]) :
          LET P == h.P
              r == Run(M, P, Galerkin(M, P), b, Sol[g][i], Zeros(M.n), Opt(o).tol, Opt(o).cycles, TRUE)
          IN /\ Keep(k, h.C, P)
             /\ ans' = <<[i |-> i, o |-> o, x |-> r.x, conv |-> r.conv, falls |-> r.falls]>>
Next == \E i \in 1..Len(Lat[g].systems) : \E o \in 1..Len(Lat[g].options) : SolveAct(i, o)
Spec == Init /\ [][Next]_vars

Answers == ans # <<>> => LET a == ans[1] IN a.conv => Solved(Sys(a.i).m, Sys(a.i).b, a.x, Opt(a.o).tol, FDec("1e-10"))
\* a cycle never moves away from the solution, whatever matrix the interpolation was made for
Falls == ans # <<>> => ans[1].falls
Interpolates == \A k \in DOMAIN cache : InterpolationOK([n |-> cache[k].P.n, rows |-> <<>>], cache[k].P)
Emit == Len(hist) = Depth => PrintT(ToJson([cfg |-> Lat[g].id, hist |-> hist]))
\* the choice of coarse points is no part of the history
View == <<g, hist, ans, DOMAIN cache, {cache[k].C : k \in DOMAIN cache}>>
=============================================================================
