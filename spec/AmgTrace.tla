------------------------------- MODULE AmgTrace -------------------------------
(* Conformance of recorded multigrid solves with Amg.
   scenario: [id, systems: <<[m, b, sol]>>, options, ev]; events:
     solve  [s, o, x, conv, single]           amg_solve
     build, update [s, o, levels: <<[A, P: <<>> or <<P>>, last]>>]   a hierarchy made for, or moved to, system s
     cycle  [s, xs]                           successive one-cycle solves
     apply  [s, r, z, twice, cycles]          z = approximate inverse applied to r, twice to 2 r
     prec   [s, o, ok]                        a preconditioner for system s, or refused for its quality
     use    [s, r, z, twice, again, tested]   the preconditioner of s applied to r, to 2 r, to r again
     raise  [what] *)
EXTENDS Amg, Json, IOUtils
VARIABLES sc, l
Data == TLCEval(JsonDeserialize(IOEnv.TRACE))
Prop == IOEnv.PROP
S == Data[sc]
Fail(clause, at, want, got) == [clause |-> clause, at |-> at, want |-> want, got |-> got]
If(cond, f) == IF cond THEN {} ELSE {f}
\* C23 is about the hierarchy, C24 about the answers
Report(p, fails) == Prop = p => \A x \in fails :
  PrintT(ToJson([fail |-> S.id, ev |-> l, clause |-> x.clause, at |-> x.at, want |-> x.want, got |-> x.got]))
Ev == S.ev[l]
IsEvent(k) == l <= Len(S.ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED sc
Sys(i) == S.systems[i]
Opt(o) == S.options[o]
Finite(x) == \A i \in 1..Len(x) : FFinite(x[i])

-----------------------------------------------------------------------------
\* rounding alone leaves a residual far below the tolerance
Benign(M, b, sol, tol) == \A norm \in {1, 2} :
  LET N(a) == IF norm = 1 THEN Norm(a) ELSE Scaled(M, a) IN
  Lt(FMul(FDec("1e-12"), N(Weight(M, sol))), FMul(tol, N(b)))
Direct1(M, o) == M.n <= o.coarsest /\ M.n <= 500 /\ o.cycles >= 1
SolveClauses(s, o, x, conv, single) ==
  LET M == s.m  round == IF single THEN FDec("2e-7") ELSE FDec("1e-13") IN
  IF ~Finite(x) \/ Len(x) # M.n THEN If(~conv, Fail("converged with values that are not numbers", 0, "", ""))
  ELSE If(~conv \/ Solved(M, s.b, x, FMul(o.tol, FDec("1.001")), round),
          Fail("converged, but the answer does not solve the system", 0, "residual below " \o FStr(FMul(o.tol, Norm(s.b))), FStr(Norm(Residual(M, s.b, x)))))
       \cup If(conv \/ single \/ ~WellSolved(M, s.b, x, o.tol),
          Fail("not converged, but the answer solves the system", 0, "residual above " \o FStr(FMul(o.tol, Norm(s.b))), FStr(Norm(Residual(M, s.b, x)))))
       \cup If(conv \/ ~Direct1(M, o) \/ ~Benign(M, s.b, s.sol, o.tol),
          Fail("a system that fits on the coarsest level is solved directly", 0, "converged", "not converged"))
Solve == IsEvent("solve") /\ Keep(Key(Sys(Ev.s).m, Opt(Ev.o)), {}, Ev.s)
         /\ Report("C24", SolveClauses(Sys(Ev.s), Opt(Ev.o), Ev.x, Ev.conv, Ev.single))

-----------------------------------------------------------------------------
Near(a, b, mag) == FLe(FAbs(FSub(a, b)), FMul(FDec("1e-10"), mag))
\* the finest matrix is the system, up to a scaling of unknowns and equations by the same positive numbers
Rescaled(M, A) ==
  /\ A.n = M.n
  /\ \A i \in 1..M.n : Lt(F0, FMul(Get(A, i, i), Get(M, i, i))) \/ Get(M, i, i) = F0
  /\ \A i \in 1..M.n : \A q \in 1..Len(Row(M, i)) :
       LET j == Row(M, i)[q][1]  a == Get(A, i, j)  m == Row(M, i)[q][2]
           x == FMul(FMul(a, a), FAbs(FMul(Get(M, i, i), Get(M, j, j))))
           y == FMul(FMul(m, m), FAbs(FMul(Get(A, i, i), Get(A, j, j)))) IN
       ~Lt(FMul(a, m), F0) /\ Near(x, y, FMul(FDec("10"), FMax(x, y)))
AbsM(M) == [n |-> M.n, rows |-> [i \in 1..M.n |-> [q \in 1..Len(Row(M, i)) |-> <<Row(M, i)[q][1], FAbs(Row(M, i)[q][2])>>]]]
Galerkins(A, P, B) ==
  LET g == Galerkin(A, P)  mag == Galerkin(AbsM(A), P) IN
  B.n = P.m /\ \A i \in 1..B.n : \A j \in 1..B.n : Near(Get(g, i, j), Get(B, i, j), Get(mag, i, j))
\* interpolation reaches no further than the neighbours of neighbours (pts: the coarse points, when they are told)
Local(A, P, pts) ==
  LET adj(i) == {Row(A, i)[q][1] : q \in 1..Len(Row(A, i))} \cup {i} IN
  pts = <<>> \/ \A i \in 1..P.n : \A q \in 1..Len(Row(P, i)) : pts[Row(P, i)[q][1]] \in UNION {adj(j) : j \in adj(i)}
LevelClauses(M, o, lv) ==
  If(lv # <<>> /\ Len(lv) <= o.max_levels + 1, Fail("number of levels", Len(lv), "at most " \o ToString(o.max_levels + 1), ToString(Len(lv))))
  \cup If(Rescaled(M, lv[1].A), Fail("the finest level is not the system", 1, "", ""))
  \cup UNION {
      If(lv[i].last = (i = Len(lv)), Fail("exactly the last level is the coarsest", i, "", ""))
      \cup If((i = Len(lv)) = (lv[i].P = <<>>), Fail("interpolation to every coarser level", i, "", ""))
      \cup If(i = Len(lv) \/ lv[i].A.n > o.coarsest, Fail("a level that is small enough is the coarsest", i, "", ToString(lv[i].A.n)))
      \cup (IF i = Len(lv) \/ lv[i].P = <<>> THEN {}
            ELSE IF ~InterpolationOK(lv[i].A, lv[i].P[1]) THEN {Fail("interpolation: ones at coarse points, weights from 0 that add up to 1", i, "", "")}
            ELSE If(Local(lv[i].A, lv[i].P[1], lv[i].pts), Fail("interpolation from points that are not near", i, "", ""))
                 \cup If(Galerkins(lv[i].A, lv[i].P[1], lv[i+1].A), Fail("the coarse matrix is not the Galerkin product", i + 1, "", "")))
      : i \in 1..Len(lv)}
Object == <<<<>>, F0, 0, 0>>     \* a hierarchy of its own, outside the cache
Build == IsEvent("build") /\ cache' = (Object :> [C |-> {}, P |-> [i \in 1..Len(Ev.levels) |-> Ev.levels[i].P]])
         /\ Report("C23", LevelClauses(Sys(Ev.s).m, Opt(Ev.o), Ev.levels))
Update == IsEvent("update") /\ UNCHANGED cache
          /\ Report("C23", LevelClauses(Sys(Ev.s).m, Opt(Ev.o), Ev.levels)
                    \cup If(cache[Object].P = [i \in 1..Len(Ev.levels) |-> Ev.levels[i].P], Fail("an update keeps the interpolation", 0, "", "")))
\* no cycle moves away from the solution
CycleAct == IsEvent("cycle") /\ UNCHANGED cache
  /\ LET s == Sys(Ev.s)
         en == TLCEval([k \in 1..Len(Ev.xs) |-> Energy(s.m, Minus(s.sol, Ev.xs[k]))])
         floor == FMul(FDec("1e-16"), Dot([i \in 1..s.m.n |-> FAbs(s.sol[i])], Weight(s.m, s.sol)))
     IN Report("C24", UNION {If(Finite(Ev.xs[k]) /\ FLe(en[k], FAdd(FMul(FDec("1.000001"), en[k-1]), floor)),
                         Fail("a cycle moved away from the solution", k - 1, FStr(en[k-1]), FStr(en[k]))) : k \in 2..Len(Ev.xs)})
\* the preconditioner is the start of the same iteration: it scales, and answers when it stops early
ApplyAct == IsEvent("apply") /\ UNCHANGED cache
  /\ LET M == Sys(Ev.s).m IN
     Report("C24", If(Finite(Ev.z) /\ \A i \in 1..M.n : FMul(FDec("2"), Ev.z[i]) = Ev.twice[i], Fail("the preconditioner does not scale", 0, "", ""))
            \cup If(\E k \in 1..Len(Ev.xs) : \A i \in 1..M.n : Near(Ev.z[i], Ev.xs[k][i], FMul(FDec("1e4"), FMax(FAbs(Ev.z[i]), FAbs(Ev.xs[k][i])))),
                    Fail("the preconditioner is not a number of cycles from zero", 0, "", ""))
            \cup If(Solved(M, Ev.r, Ev.z, FDec("0.0501"), FDec("1e-13")) \/
                    (\A i \in 1..M.n : Near(Ev.z[i], Ev.xs[Len(Ev.xs)][i], FMul(FDec("1e4"), FAbs(Ev.z[i])))),
                    Fail("the preconditioner stopped early without being close", 0, "", "")))
\* a system that fits on the coarsest level is solved directly, hence never refused
PrecAct == IsEvent("prec") /\ UNCHANGED cache
  /\ LET s == Sys(Ev.s) IN
     Report("C24", If(Ev.ok \/ ~(s.m.n <= Opt(Ev.o).coarsest /\ s.m.n <= 500),
            Fail("a preconditioner was refused for a system that is solved directly", 0, "", "")))
\* one linear operation that starts from zero, and close for the vectors it was accepted with
UseAct == IsEvent("use") /\ UNCHANGED cache
  /\ LET M == Sys(Ev.s).m IN
     Report("C24", If(Finite(Ev.z) /\ \A i \in 1..M.n : FMul(FDec("2"), Ev.z[i]) = Ev.twice[i], Fail("the preconditioner does not scale", 0, "", ""))
            \cup If(Ev.again = Ev.z, Fail("the preconditioner remembers an earlier vector", 0, "", ""))
            \cup If(~Ev.tested \/ Solved(M, Ev.r, Ev.z, FDec("0.0501"), FDec("1e-13")),
                    Fail("the preconditioner was accepted without being close", 0, "", "")))
Raised == IsEvent("raise") /\ UNCHANGED cache /\ Report(Prop, {Fail("the solver raised an exception on a regular system", 0, "", Ev.what)})
Init == AInit /\ sc \in 1..Len(Data) /\ l = 1
Next == Solve \/ Build \/ Update \/ CycleAct \/ ApplyAct \/ PrecAct \/ UseAct \/ Raised
Spec == Init /\ [][Next]_<<cache, sc, l>>
Finished == l = Len(S.ev) + 1 => PrintT(ToJson([done |-> S.id]))
=============================================================================
