-------------------------------- MODULE Solve --------------------------------
(* The accepted sub-step as a function of the state before it, for exploration: the
   pressure equation is solved, then the explicit part of the step is evaluated. *)
EXTENDS Clauses

-----------------------------------------------------------------------------
(* The pressure that solves the volume balance: Gaussian elimination on the affine
   residual, with one correction. *)
RECURSIVE Elim(_, _, _)
Elim(M, n, k) ==                   \* M[i] = row of n+1 numbers; reduces column k
  IF k > n THEN M
  ELSE LET piv == TLCEval([j \in 1..(n+1) |-> M[k][j] \oslash M[k][k]])
           N == TLCEval([i \in 1..n |-> IF i = k THEN piv
                         ELSE [j \in 1..(n+1) |-> M[i][j] \ominus (M[i][k] \otimes piv[j])]])
       IN Elim(N, n, k + 1)
Scale0 == Dec("1e7")
Corrected(m, v, dt, P, sw, sg, Q0) ==
  LET n == m.n
      r0 == Rows(m, v, dt, P, sw, sg, Q0)
      col(j) == Rows(m, v, dt, P, sw, sg, [c \in 1..n |-> IF c = j THEN Q0[c] \oplus Scale0 ELSE Q0[c]])
      cols == TLCEval([j \in 1..n |-> col(j)])
      M == TLCEval([i \in 1..n |-> [j \in 1..(n+1) |->
              IF j = n + 1 THEN Neg(r0[i].res) ELSE (cols[j][i].res \ominus r0[i].res) \oslash Scale0]])
      R == Elim(M, n, 1)
  IN TLCEval([c \in 1..n |-> Q0[c] \oplus R[c][n + 1]])
Solve(m, v, dt, P, sw, sg) ==
  LET q1 == Corrected(m, v, dt, P, sw, sg, P) IN Corrected(m, v, dt, P, sw, sg, q1)

AddTo(led, d) == [k \in DOMAIN led |-> IF k \in DOMAIN d THEN led[k] \oplus d[k] ELSE led[k]]
Accept(m, v, dt, o) ==
  LET Q == Solve(m, v, dt, o.P, o.sw, o.sg)
      s == Sats(m, v, dt, Q, o.sw, o.sg)
      sw == TLCEval([c \in 1..m.n |-> s.new[c].sw])
      sg == TLCEval([c \in 1..m.n |-> s.new[c].sg])
      mm == MassMoves(m, Q, o.sw, o.sg, sw, sg)
      cm == ComponentMoves(m, s.outs)
      comp1 == AddTo(o.comp, cm)
      mob == Mob(m, o.P, o.sw, o.sg)
      binds(i) == BhpSwitch(m, m.wells[i], v[i], o.P[m.wells[i].cell], mob[m.wells[i].cell].t) = 1
                  \/ s.outs[i].binds = 1
      diag(i) == LET w == m.wells[i] x == s.outs[i] IN
        [q |-> IF m.f.has_pvt /\ w.ctl = "rate" /\ ~w.inj THEN <<x.q>> ELSE o.diag[i].q,
         mode |-> IF w.ctl # "rate" THEN o.diag[i].mode ELSE IF binds(i) THEN "bhp" ELSE "rate",
         surf |-> IF m.f.has_pvt /\ w.ctl = "rate" /\ ~w.inj
                  THEN <<x.surf.oil, x.surf.water, x.surf.gas, x.surf.liquid>> ELSE o.diag[i].surf]
  IN TLCEval([P |-> Q, sw |-> sw, sg |-> sg,
      so |-> [c \in 1..m.n |-> (C1 \ominus sw[c]) \ominus sg[c]],
      mass |-> AddTo(o.mass, [win |-> mm.water.in, wout |-> mm.water.out, oin |-> mm.oil.in,
                              oout |-> mm.oil.out, gin |-> mm.gas.in, gout |-> mm.gas.out]),
      comp |-> [comp1 EXCEPT !.oacc = comp1.oin \ominus comp1.oout, !.gacc = comp1.gin \ominus comp1.gout],
      diag |-> [i \in 1..Len(m.wells) |-> diag(i)]])
=============================================================================
