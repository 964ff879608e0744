-------------------------------- MODULE Pair --------------------------------
(* Two executions side by side: statements about pairs of runs that a single run cannot
   show.  A pair is [a, b, cells, wells, kind]: two models (configuration documents) and
   a correspondence cells = <<<<cell of a, cell of b>>, ...>>, wells likewise.

     barrier   b differs from a only behind faces without permeability (or has more cells
               there); cells are those on the near side
     symmetry  b is a mirrored, transposed or renumbered a
     solver    b is a with another linear solver

   Corresponding cells that start equal and see the same controls stay equal. *)
EXTENDS Clauses

\* What the tolerance of the pressure equation leaves open.  The matrix of the near side is an
\* M-matrix whose row sums are at least acc: two solutions of the same system with residuals
\* r1, r2 differ by at most max (|r1|+|r2|)/acc.
Acc(m, dt, o, c) == (m.pv[c] \otimes CT(m.f, Raw(o.P[c]), Raw(o.sw[c]), Raw(o.sg[c]))) \oslash Raw(dt)
\* a converged step of b stays within b's tolerance; the systems are the same up to the correspondence
Slack(ma, mb, v, dt, o, a, near) ==
  LET rows == PressureStep(ma, v, dt, o, a)
      one(c) == (RowTol(ma, rows, Wild(ma, a), c) \oplus RowTol(mb, rows, Wild(ma, a), c)) \oslash Acc(ma, dt, o, c)
  IN Hi(MaxOver([i \in 1..Len(near) |-> one(near[i])], Len(near)))

Near(pair) == [i \in 1..Len(pair.cells) |-> pair.cells[i][1]]
\* the switch of some producer to its minimum pressure is within rounding: either is right
Open(m, v, o) == Undecided(m, v, Field(o.P), Mob(m, Field(o.P), Field(o.sw), Field(o.sg)))
\* which neighbour is upstream depends on the numbering when two pressures are exactly equal
Tied(m, o) == \E l \in 1..Len(m.links) :
  LET k == m.links[l] IN o.P[k.a] = o.P[k.b] /\ m.links[l].t # C0
    /\ ~(o.sw[k.a] = o.sw[k.b] /\ o.sg[k.a] = o.sg[k.b])

\* one step of both from corresponding states: o (of a) to sa and sb
PairClauses(pair, ma, mb, v, dt, o, sa, sb) ==
  IF Open(ma, v, o) \/ (pair.kind = "symmetry" /\ Tied(ma, o)) THEN {}
  ELSE
  LET near == Near(pair)
      slack == Slack(ma, mb, v, dt, o, sa, near)
      Q == TLCEval([c \in 1..ma.n |-> Widen(Raw(sa.P[c]), Raw(slack))])
      s == Sats(ma, v, Raw(dt), Q, Field(o.sw), Field(o.sg))
      cells == 1..Len(pair.cells)
      ca(i) == pair.cells[i][1]  cb(i) == pair.cells[i][2]
      \* the number of sub-steps is common to all cells: behind a barrier only unlimited cells compare
      cmp == IF pair.kind = "barrier" THEN {i \in cells : s.new[ca(i)].free} ELSE cells
      ws == {i \in 1..Len(pair.wells) : ma.f.has_pvt /\ ma.wells[pair.wells[i][1]].ctl = "rate" /\ ~ma.wells[pair.wells[i][1]].inj}
  IN Each(pair.kind \o ": pressure of corresponding cells", cells,
          LAMBDA i : FFinite(sb.P[cb(i)]) /\ FLe(FAbs(FSub(sa.P[ca(i)], sb.P[cb(i)])), FAdd(slack, FMul(FDec("3e-7"), FAbs(sa.P[ca(i)])))),
          LAMBDA i : FStr(sa.P[ca(i)]) \o " within " \o FStr(slack), LAMBDA i : FStr(sb.P[cb(i)]))
     \cup Each(pair.kind \o ": water of corresponding cells", cmp,
          LAMBDA i : Agrees(s.new[ca(i)].sw, sb.sw[cb(i)]), LAMBDA i : Str(s.new[ca(i)].sw) \o " (" \o FStr(sa.sw[ca(i)]) \o ")", LAMBDA i : FStr(sb.sw[cb(i)]))
     \cup Each(pair.kind \o ": gas of corresponding cells", cmp,
          LAMBDA i : Agrees(s.new[ca(i)].sg, sb.sg[cb(i)]), LAMBDA i : Str(s.new[ca(i)].sg) \o " (" \o FStr(sa.sg[ca(i)]) \o ")", LAMBDA i : FStr(sb.sg[cb(i)]))
     \cup Each(pair.kind \o ": reported rate of corresponding wells", ws,
          LAMBDA i : Len(sb.diag[pair.wells[i][2]].q) = 1 /\ Agrees(s.outs[pair.wells[i][1]].q, sb.diag[pair.wells[i][2]].q[1]),
          LAMBDA i : Str(s.outs[pair.wells[i][1]].q), LAMBDA i : IF Len(sb.diag[pair.wells[i][2]].q) = 1 THEN FStr(sb.diag[pair.wells[i][2]].q[1]) ELSE "none")
=============================================================================
