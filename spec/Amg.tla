--------------------------------- MODULE Amg ---------------------------------
(* The algebraic multigrid solver: matrices [n, rows: row -> <<<<column, value>>, ...>>]
   in binary64 (FP), a hierarchy per graph and options that is kept between solves.

     cache   key -> [C: points kept on the coarse grid, P: interpolation]

   Solve(s, o) solves system s; the first solve with a key chooses the coarse points (any
   choice allowed by Coarse), later ones keep them and form the coarse matrices anew. *)
EXTENDS FP, TLC, FiniteSets, FiniteSetsExt, SequencesExt

F0 == FDec("0")
F1 == FDec("1")
Lt(a, b) == FLt(a, b)
Row(M, i) == M.rows[i]
\* a row may name a column more than once
Get(M, i, j) == LET r == Row(M, i) IN FSum([k \in 1..Len(r) |-> IF r[k][1] = j THEN r[k][2] ELSE F0])
Diag(M) == TLCEval([i \in 1..M.n |-> Get(M, i, i)])
Apply(M, x) == TLCEval([i \in 1..M.n |-> FSum([k \in 1..Len(Row(M, i)) |-> FMul(Row(M, i)[k][2], x[Row(M, i)[k][1]])])])
Weight(M, x) == TLCEval([i \in 1..M.n |-> FSum([k \in 1..Len(Row(M, i)) |-> FAbs(FMul(Row(M, i)[k][2], x[Row(M, i)[k][1]]))])])
Minus(a, b) == TLCEval([i \in 1..Len(a) |-> FSub(a[i], b[i])])
Plus(a, b) == TLCEval([i \in 1..Len(a) |-> FAdd(a[i], b[i])])
Dot(a, b) == FSum([i \in 1..Len(a) |-> FMul(a[i], b[i])])
Norm(a) == FSqrt(Dot(a, a))
Zeros(n) == [i \in 1..n |-> F0]
Energy(M, e) == Dot(e, Apply(M, e))
\* the norm the iteration is judged in after diagonal scaling
Scaled(M, a) == FSqrt(FSum([i \in 1..Len(a) |-> FDiv(FMul(a[i], a[i]), FAbs(Get(M, i, i)))]))

-----------------------------------------------------------------------------
(* what a solve answers for: x solves M x = b to the tolerance when it says so; round is
   the relative precision x is stored with *)
Residual(M, b, x) == Minus(b, Apply(M, x))
Below(norm(_), M, b, x, tol, round) ==
  FLe(norm(Residual(M, b, x)), FAdd(FMul(tol, norm(b)), norm([i \in 1..M.n |-> FMul(round, FAdd(Weight(M, x)[i], FAbs(b[i])))])))
Solved(M, b, x, tol, round) ==
  \/ Below(LAMBDA a : Norm(a), M, b, x, tol, round)
  \/ Below(LAMBDA a : Scaled(M, a), M, b, x, tol, round)
\* well below the tolerance in both norms: saying "not converged" would be wrong
WellSolved(M, b, x, tol) ==
  /\ Lt(Norm(Residual(M, b, x)), FMul(FMul(FDec("0.9"), tol), Norm(b)))
  /\ Lt(Scaled(M, Residual(M, b, x)), FMul(FMul(FDec("0.9"), tol), Scaled(M, b)))

-----------------------------------------------------------------------------
(* coarsening *)
\* strong connections: negative off-diagonals comparable with the largest of their row
Strong(M, theta) ==
  LET off(i) == {k \in 1..Len(Row(M, i)) : Row(M, i)[k][1] # i /\ Lt(Row(M, i)[k][2], F0)}
      big(i) == IF off(i) = {} THEN F0 ELSE LET m == CHOOSE k \in off(i) : \A q \in off(i) : FLe(FAbs(Row(M, i)[q][2]), FAbs(Row(M, i)[k][2])) IN FAbs(Row(M, i)[m][2])
  IN UNION {{<<i, Row(M, i)[k][1]>> : k \in {k \in off(i) : FLe(FMul(theta, big(i)), FAbs(Row(M, i)[k][2]))}} : i \in 1..M.n}
\* coarse points: no two adjacent unless neither had a better neighbour, and every other point has one
Coarse(M, theta) ==
  LET S == TLCEval(Strong(M, theta)) IN
  {C \in SUBSET (1..M.n) : /\ C # {} /\ Cardinality(C) < M.n
                           /\ \A i \in (1..M.n) \ C : \E j \in C : <<i, j>> \in S}
\* interpolation by strong connections to coarse points, rows adding up to one
Interpolation(M, theta, C) ==
  LET S == Strong(M, theta)
      cs == SetToSortSeq(C, <)
      num(c) == CHOOSE k \in 1..Len(cs) : cs[k] = c
      nb(i) == SetToSortSeq({j \in C : <<i, j>> \in S}, <)
      tot(i) == FSum([k \in 1..Len(nb(i)) |-> FAbs(Get(M, i, nb(i)[k]))])
  IN TLCEval([n |-> M.n, m |-> Len(cs), rows |-> [i \in 1..M.n |->
       IF i \in C THEN <<<<num(i), F1>>>>
       ELSE [k \in 1..Len(nb(i)) |-> <<num(nb(i)[k]), FDiv(FAbs(Get(M, i, nb(i)[k])), tot(i))>>]]])
Column(P, k) == [i \in 1..P.n |-> Get(P, i, k)]
Gather(P, r) == TLCEval([k \in 1..P.m |-> FSum([i \in 1..P.n |-> FMul(Get(P, i, k), r[i])])])
Prolong(P, e) == TLCEval([i \in 1..P.n |-> FSum([q \in 1..Len(Row(P, i)) |-> FMul(Row(P, i)[q][2], e[Row(P, i)[q][1]])])])
Galerkin(M, P) == LET cols == TLCEval([j \in 1..P.m |-> Gather(P, Apply(M, Column(P, j)))])
                  IN TLCEval([n |-> P.m, rows |-> [k \in 1..P.m |-> [j \in 1..P.m |-> <<j, cols[j][k]>>]]])

(* what every interpolation must be *)
InterpolationOK(M, P) ==
  LET ones == {i \in 1..P.n : Len(Row(P, i)) = 1 /\ Row(P, i)[1][2] = F1} IN
  /\ P.n = M.n /\ P.m <= P.n /\ P.m > 0
  /\ \A i \in 1..P.n : \A q \in 1..Len(Row(P, i)) : ~Lt(Row(P, i)[q][2], F0) /\ Row(P, i)[q][1] \in 1..P.m
  /\ \A k \in 1..P.m : \E i \in ones : Row(P, i)[1][1] = k
  /\ \A i \in 1..P.n : Row(P, i) = <<>> \/ FLe(FAbs(FSub(F1, FSum([q \in 1..Len(Row(P, i)) |-> Row(P, i)[q][2]]))), FDec("1e-9"))

-----------------------------------------------------------------------------
(* the cycle, for exploration: two levels, the coarse one solved exactly *)
RECURSIVE Reduce(_, _, _), Smooth(_, _, _, _)
Reduce(W, n, k) ==
  IF k > n THEN W
  ELSE LET piv == TLCEval([j \in 1..(n+1) |-> FDiv(W[k][j], W[k][k])])
       IN Reduce(TLCEval([i \in 1..n |-> IF i = k THEN piv ELSE [j \in 1..(n+1) |-> FSub(W[i][j], FMul(W[i][k], piv[j]))]]), n, k + 1)
Direct(M, b) == LET W == TLCEval(Reduce(TLCEval([i \in 1..M.n |-> [j \in 1..(M.n + 1) |-> IF j > M.n THEN b[i] ELSE Get(M, i, j)]]), M.n, 1))
                IN TLCEval([i \in 1..M.n |-> W[i][M.n + 1]])
RowAbs(M, i) == FSum([k \in 1..Len(Row(M, i)) |-> FAbs(Row(M, i)[k][2])])
Smooth(M, b, x, k) ==
  IF k = 0 THEN x
  ELSE LET r == TLCEval(Residual(M, b, x)) IN
       Smooth(M, b, TLCEval([i \in 1..M.n |-> FAdd(x[i], FDiv(FMul(FDec("0.7"), r[i]),
              FMax(FAbs(Get(M, i, i)), FMul(FDec("0.3"), RowAbs(M, i)))))]), k - 1)
Cycle(M, P, G, b, x) ==
  LET y == Smooth(M, b, x, 3)
      e == Direct(G, Gather(P, Residual(M, b, y)))
  IN Smooth(M, b, Plus(y, Prolong(P, e)), 2)

-----------------------------------------------------------------------------
VARIABLE cache
Graph(M) == [i \in 1..M.n |-> {Row(M, i)[k][1] : k \in 1..Len(Row(M, i))}]
Key(M, o) == <<Graph(M), o.theta, o.max_levels, o.coarsest>>
Keep(k, C, P) == cache' = IF k \in DOMAIN cache THEN cache ELSE cache @@ (k :> [C |-> C, P |-> P])
AInit == cache = <<>>
=============================================================================
