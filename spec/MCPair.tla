-------------------------------- MODULE MCPair --------------------------------
(* Self-composition of OilSim in exact arithmetic: the pairs of the file IOEnv.LATTICE
   [id, kind, cells, wells, a, b: [cfg, pvt, ov, P, sw, sg], dts, ctls: [[a, b], ...]]
   take the same sequences of step lengths and (corresponding) controls; corresponding
   cells and wells must stay equal.  Every sequence within the bound is explored. *)
EXTENDS Pair, Solve

VARIABLES pr, sa, sb, v, hist,
          same,    \* FALSE once a saturation limit acted next to a barrier
          ma, mb   \* the two models (never change)
vars == <<st, ctl, mach, pr, sa, sb, v, hist, same, ma, mb>>
Lat == TLCEval(JsonDeserialize(IOEnv.LATTICE))
Model(x) == ModelOf(x.cfg, x.pvt, x.ov)
Fresh(x, m) == [P |-> x.P, sw |-> x.sw, sg |-> x.sg, so |-> [c \in 1..m.n |-> (C1 \ominus Raw(x.sw[c])) \ominus Raw(x.sg[c])],
                mass |-> ZeroLedger, comp |-> ZeroComp, diag |-> [i \in 1..Len(m.wells) |-> [q |-> <<>>, mode |-> "", surf |-> <<>>]]]
Depth == 2
Init == /\ pr \in 1..Len(Lat)
        /\ ma = Model(Lat[pr].a) /\ mb = Model(Lat[pr].b)
        /\ sa = Fresh(Lat[pr].a, ma) /\ sb = Fresh(Lat[pr].b, mb)
        /\ v = 1 /\ hist = <<>> /\ same = TRUE
        /\ st = 0 /\ ctl = 0 /\ mach = Idle
Vals(k, side) == LET x == Lat[pr].ctls[k][side] IN [w \in 1..Len(x) |-> Raw(x[w])]
StepBoth(i) ==
  /\ Len(hist) < Depth
  /\ LET dt == Lat[pr].dts[i]
         na == Accept(ma, Vals(v, 1), dt, sa)
     IN /\ sa' = na
        /\ sb' = Accept(mb, Vals(v, 2), dt, sb)
        /\ same' = IF same /\ Lat[pr].kind = "barrier"
                   THEN LET s == Step(ma, Vals(v, 1), dt, sa, na) IN \A i_ \in 1..Len(Lat[pr].cells) : s.new[Lat[pr].cells[i_][1]].free
                   ELSE same
  /\ hist' = Append(hist, [k |-> "step", i |-> i]) /\ UNCHANGED <<pr, v, st, ctl, mach>>
SetControls(k) == /\ Len(hist) < Depth /\ hist # <<>> /\ k # v /\ v' = k
                  /\ hist' = Append(hist, [k |-> "ctl", i |-> k]) /\ UNCHANGED <<pr, sa, sb, same, st, ctl, mach>>
Next == ((\E i \in 1..Len(Lat[pr].dts) : StepBoth(i)) \/ (\E k \in 1..Len(Lat[pr].ctls) : SetControls(k))) /\ UNCHANGED <<ma, mb>>
Spec == Init /\ [][Next]_vars

CloseP(x, y) == FLe(FAbs(FSub(x, y)), FMul(FDec("1e-9"), FMax(FAbs(x), FDec("1"))))
Related == same =>
  /\ \A i \in 1..Len(Lat[pr].cells) :
       LET c == Lat[pr].cells[i][1]  d == Lat[pr].cells[i][2] IN
       CloseP(sa.P[c], sb.P[d]) /\ CloseP(sa.sw[c], sb.sw[d]) /\ CloseP(sa.sg[c], sb.sg[d])
  /\ \A i \in 1..Len(Lat[pr].wells) :
       LET x == sa.diag[Lat[pr].wells[i][1]]  y == sb.diag[Lat[pr].wells[i][2]] IN
       x.mode = y.mode /\ Len(x.q) = Len(y.q) /\ (Len(x.q) = 1 => CloseP(x.q[1], y.q[1]))
\* both sides book the same when everything corresponds
Books == (Lat[pr].kind # "barrier") =>
  (\A k \in DOMAIN sa.comp : CloseP(sa.comp[k], sb.comp[k])) /\ (\A k \in DOMAIN sa.mass : CloseP(sa.mass[k], sb.mass[k]))
Emit == Len(hist) = Depth => PrintT(ToJson([cfg |-> Lat[pr].id, hist |-> hist]))
=============================================================================
