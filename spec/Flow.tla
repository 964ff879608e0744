-------------------------------- MODULE Flow --------------------------------
(* One IMPES step on a model m (Config!ModelOf):
     Rows       the discrete volume balance the new pressure has to satisfy
     WellOut    what each well does during the saturation step
     Transport  the new saturations
   A field is a sequence with one number per cell. *)
EXTENDS Config

Mob(m, P, sw, sg) ==
  TLCEval([c \in 1..m.n |->
    LET w == KrW(m.f, sw[c]) \oslash MuW(m.f, P[c])
        o == KrO(m.f, sw[c], sg[c]) \oslash MuO(m.f, P[c])
        g == KrG(m.f, sg[c]) \oslash MuG(m.f, P[c])
    IN [w |-> w, o |-> o, g |-> g, t |-> (w \oplus o) \oplus g]])

\* sum over the connections of cell c of sign * flow
Div(m, flow, c) ==
  NSum([i \in 1..Len(m.inc[c]) |->
          LET e == m.inc[c][i] IN IF e[2] = 1 THEN flow[e[1]] ELSE Neg(flow[e[1]])])

HasGravity(m) == m.dims[3] > 1 /\ SurelyLt(C0, m.dz)

\* signed control of a rate well, m3/s: positive into the reservoir
RateSI(m, w, val) ==
  LET q == (val \otimes m.scale) \oslash Day IN IF w.inj THEN q ELSE Neg(q)

-----------------------------------------------------------------------------
(* Implicit pressure.  Named deviations of the implementation, kept as they are:
   - a surface-rate, choked or limited well enters the pressure equation with its
     raw control value (no formation volume factor, no choke, no limit);
   - upstream directions and mobilities are those of the old pressure. *)

\* does the rate producer w switch to its minimum bottom-hole pressure at old pressure p?
\* 1 yes, 0 no, 2 within rounding of the threshold
BhpSwitch(m, w, val, p, mobt) ==
  IF w.ctl # "rate" \/ w.inj \/ ~w.has_bmin THEN 0
  ELSE LET req == p \oplus (RateSI(m, w, val) \oslash ((w.wi \otimes mobt) \oplus EPS30))
       IN IF SurelyLt(req, w.bmin) THEN 1 ELSE IF SurelyLe(w.bmin, req) THEN 0 ELSE 2

\* contribution of well w to the balance of its cell: <<coefficient of p, source>>
WellRow(m, w, val, p, mobt) ==
  LET wm == w.wi \otimes mobt
      asRate == <<C0, RateSI(m, w, val)>>
      asBhp(pb) == <<wm, wm \otimes pb>>
  IN IF w.ctl = "bhp" THEN asBhp(val \otimes MPa)
     ELSE IF w.ctl = "rate"
          THEN LET s == BhpSwitch(m, w, val, p, mobt) IN
               IF s = 1 THEN asBhp(w.bmin) ELSE asRate
          ELSE <<C0, C0>>

\* is the pressure row of some well undecided (switch within rounding)?
Undecided(m, vals, P, mob) ==
  \E i \in 1..Len(m.wells) :
     BhpSwitch(m, m.wells[i], vals[i], P[m.wells[i].cell], mob[m.wells[i].cell].t) = 2

\* flow out of end a of every connection, and the size of its terms, for new pressure Q
PressureFlows(m, P, sw, sg, mob, Q) ==
  LET pcx == IF m.f.pc_pos THEN TLCEval([c \in 1..m.n |-> Pc(m.f, sw[c])]) ELSE <<>>
  IN TLCEval([l \in 1..Len(m.links) |->
     LET k == m.links[l]
         dp == Diff(P[k.a], P[k.b])
         up(fn(_)) == IfPos(dp, fn(k.a), fn(k.b))
         T == k.t \otimes up(LAMBDA c : mob[c].t)
         visc == T \otimes Diff(Q[k.a], Q[k.b])
         grav == IF k.d = "z" /\ HasGravity(m)
                 THEN ((k.t \otimes m.g) \otimes m.dz) \otimes
                      NSum(<<up(LAMBDA c : mob[c].w) \otimes up(LAMBDA c : RhoW(m.f, P[c])),
                             up(LAMBDA c : mob[c].o) \otimes up(LAMBDA c : RhoO(m.f, P[c])),
                             up(LAMBDA c : mob[c].g) \otimes up(LAMBDA c : RhoG(m.f, P[c]))>>)
                 ELSE C0
         \* capillary term: a source in the upper-index cell, a sink in the lower one
         cap == IF m.f.pc_pos
                THEN (k.t \otimes up(LAMBDA c : mob[c].o)) \otimes (pcx[k.b] \ominus pcx[k.a])
                ELSE C0
     IN [q |-> (visc \oplus grav) \oplus cap,
         mag |-> T \otimes (NAbs(Q[k.a]) \oplus NAbs(Q[k.b])), src |-> NAbs(grav) \oplus NAbs(cap),
         T |-> T]])

\* residual of the volume balance of every cell under the new pressure Q, with the
\* magnitude of the matrix-vector terms that a solver has to cancel and the diagonal
Rows(m, vals, dt, P, sw, sg, Q) ==
  LET mob == Mob(m, P, sw, sg)
      fl == PressureFlows(m, P, sw, sg, mob, Q)
      qs == [l \in 1..Len(m.links) |-> fl[l].q]
  IN TLCEval([c \in 1..m.n |->
     LET acc == (m.pv[c] \otimes CT(m.f, P[c], sw[c], sg[c])) \oslash dt
         mine == SelectSeq([i \in 1..Len(m.wells) |-> i], LAMBDA i : m.wells[i].cell = c)
         wr == [i \in 1..Len(mine) |->
                  WellRow(m, m.wells[mine[i]], vals[mine[i]], P[c], mob[c].t)]
         wres == NSum([i \in 1..Len(wr) |-> (wr[i][1] \otimes Q[c]) \ominus wr[i][2]])
         wdiag == NSum([i \in 1..Len(wr) |-> wr[i][1]])
         wsrc == NSum([i \in 1..Len(wr) |-> NAbs(wr[i][2])])
         Tsum == NSum([i \in 1..Len(m.inc[c]) |-> fl[m.inc[c][i][1]].T])
         Tmag == NSum([i \in 1..Len(m.inc[c]) |-> fl[m.inc[c][i][1]].mag])
         Tsrc == NSum([i \in 1..Len(m.inc[c]) |-> fl[m.inc[c][i][1]].src])
     IN [res |-> ((acc \otimes Diff(Q[c], P[c])) \oplus Div(m, qs, c)) \oplus wres,
         diag |-> NSum(<<acc, Tsum, wdiag>>),
         rhs |-> NSum(<<acc \otimes NAbs(P[c]), wsrc, Tsrc>>),     \* size of the right-hand side
         mag |-> NSum(<<acc \otimes (NAbs(Q[c]) \oplus NAbs(P[c])), Tmag,
                        wdiag \otimes NAbs(Q[c]), wsrc>>)]])

-----------------------------------------------------------------------------
(* Wells during the saturation step (explicit, at the new pressure Q) *)

Room(x) == NMax(C0, x)
\* fraction of a requested saturation change ds that fits: up if it grows, dn if it shrinks
Fits(ds, up, dn) ==
  IfPos(ds, up \oslash NMax(ds, EPS12), dn \oslash NMax(NAbs(ds), EPS12))
Choke01(a) == NMax(C0, NMin(C1, a))

\* surface volumes of each kind per unit of reservoir volume withdrawn
Yields(y) ==
  LET b(x) == NMax(x, EPS12)
      oil == (y.fo \oslash b(y.Bo)) \oplus ((y.fg \otimes y.Rv) \oslash b(y.Bg))
      wat == y.fw \oslash b(y.Bw)
      gas == (y.fg \oslash b(y.Bg)) \oplus ((y.fo \otimes y.Rs) \oslash b(y.Bo))
  IN [oil |-> oil, water |-> wat, gas |-> gas, liquid |-> oil \oplus wat]

\* largest withdrawal all phase limits allow, folded over the limits that apply
LimitNames == <<"wopr", "wlpr", "wgpr", "liqr">>
LimitYield(yl, k) == CASE k = "wopr" -> yl.oil [] k = "wlpr" -> yl.water
                       [] k = "wgpr" -> yl.gas [] OTHER -> yl.liquid
ApplyLimit(q, lim, yl, k) ==       \* q signed withdrawal
  IF ~Has(lim, k) \/ SurelyLe(LimitYield(yl, k), C0) THEN q
  ELSE LET most == (Raw(lim[k]) \oslash Day) \oslash LimitYield(yl, k)
           cut == IfPos(NAbs(q) \ominus most, Neg(most), q)
       IN IF SurelyLt(C0, LimitYield(yl, k)) THEN cut ELSE Hull(cut, q)
ApplyLimits(q, lim, yl) ==
  ApplyLimit(ApplyLimit(ApplyLimit(ApplyLimit(q, lim, yl, "wopr"), lim, yl, "wlpr"), lim, yl, "wgpr"), lim, yl, "liqr")

\* rate producer: never draw the bottom-hole pressure below its minimum
BhpMost(w, mobt, p) == (w.wi \otimes mobt) \otimes NMax(p \ominus w.bmin, C0)
LimitByBhp(w, q, mobt, p) ==
  IF ~w.has_bmin THEN q
  ELSE LET most == BhpMost(w, mobt, p) IN IfPos(Neg(q) \ominus most, Neg(most), q)
\* 1 the minimum binds, 0 it does not, 2 undecided
BhpBinds(w, q, mobt, p) ==
  IF ~w.has_bmin THEN 0
  ELSE LET d == Neg(q) \ominus BhpMost(w, mobt, p)
       IN IF SurelyLt(C0, d) THEN 1 ELSE IF SurelyLe(d, C0) THEN 0 ELSE 2

NoSurf == [none |-> TRUE]
Nothing == [qw |-> C0, qg |-> C0, qo |-> C0, q |-> C0, surf |-> NoSurf, binds |-> 0,
            oin |-> C0, oout |-> C0, gin |-> C0, gout |-> C0]

\* target reservoir withdrawal of a surface-rate producer (positive)
SurfaceTarget(m, w, base, y) ==
  LET yl == Yields(y) IN
  CASE w.sphase = "oil"   -> base \oslash NMax(yl.oil, EPS12)
    [] w.sphase = "water" -> (base \otimes y.Bw) \oslash NMax(y.fw, Dec("1e-8"))
    [] w.sphase = "gas"   -> base \oslash NMax(yl.gas, EPS12)
    [] OTHER              -> base \oslash NMax(yl.liquid, EPS12)

WellOut(m, w, val, dt, Q, sw, sg, mob) ==
  LET f == m.f
      c == w.cell
      p == Q[c]
      mc == mob[c]
      tot == mc.t \oplus EPS10
      fw == mc.w \oslash tot   fg == mc.g \oslash tot   fo == mc.o \oslash tot
      perPV == dt \oslash NMax(m.pv[c], EPS12)
      pvt == f.has_pvt
      B(k) == Pvt(f, k, p)
      y == [fo |-> fo, fw |-> fw, fg |-> fg, Bo |-> B("Bo"), Bw |-> B("Bw"), Bg |-> B("Bg"),
            Rs |-> B("Rs"), Rv |-> B("Rv")]
      b(x) == NMax(x, EPS12)
      base == (val \otimes m.scale) \oslash Day
      swUp == Room(((C1 \ominus f.so_r) \ominus sg[c]) \ominus sw[c])
      sgUp == Room(((C1 \ominus f.so_r) \ominus sw[c]) \ominus sg[c])
      \* --- injector on rate control
      injQ0 == IF w.surface /\ pvt THEN base \otimes (IF w.gas THEN B("Bg") ELSE B("Bw")) ELSE base
      injDs == perPV \otimes injQ0
      injQ == injQ0 \otimes Choke01(NMin(C1,
                 IF w.gas THEN Fits(injDs, sgUp, sg[c] \ominus f.sg_cr)
                 ELSE Fits(injDs, swUp, sw[c] \ominus f.sw_cr)))
      injGasSurf == (NMax(injQ, C0) \oslash b(B("Bg"))) \otimes dt
      \* --- producer on rate control
      prodQ0 == IF w.surface /\ pvt THEN Neg(SurfaceTarget(m, w, base, y)) ELSE Neg(base)
      prodQ1 == LimitByBhp(w, prodQ0, mc.t, p)
      dSw == perPV \otimes (prodQ1 \otimes fw)
      dSg == perPV \otimes (prodQ1 \otimes fg)
      choke == Choke01(NMin(C1, NMin(Fits(dSw, swUp, Room(sw[c] \ominus f.sw_cr)),
                                     Fits(dSg, sgUp, Room(sg[c] \ominus f.sg_cr)))))
      prodQ == IF pvt THEN ApplyLimits(prodQ1 \otimes choke, w.lim, Yields(y)) ELSE prodQ1
      aq == NAbs(prodQ)
      yl == Yields(y)
      perDay(x) == (aq \otimes x) \otimes Day
      qoOut == NMax(Neg(prodQ \otimes fo), C0)
      qgOut == NMax(Neg(prodQ \otimes fg), C0)
      \* --- bottom-hole pressure control: outflow from the reservoir
      bq == (w.wi \otimes mc.t) \otimes (p \ominus (val \otimes MPa))
      bOilSurf == dt \otimes (((NAbs(bq) \otimes fo) \oslash b(B("Bo")))
                              \oplus ((B("Rv") \otimes (NAbs(bq) \otimes fg)) \oslash b(B("Bg"))))
      bGasSurf == dt \otimes (((NAbs(bq) \otimes fg) \oslash b(B("Bg")))
                              \oplus ((B("Rs") \otimes (NAbs(bq) \otimes fo)) \oslash b(B("Bo"))))
      bInjGas == (NAbs(bq) \oslash b(B("Bg"))) \otimes dt
  IN
  IF w.ctl = "rate" /\ w.inj THEN
    [Nothing EXCEPT !.qw = IF w.gas THEN C0 ELSE injQ,
                    !.qg = IF w.gas THEN injQ ELSE C0,
                    !.q = injQ,
                    !.gin = IF w.gas /\ pvt THEN injGasSurf ELSE C0,
                    !.oin = IF w.gas /\ pvt THEN B("Rv") \otimes injGasSurf ELSE C0]
  ELSE IF w.ctl = "rate" THEN
    [Nothing EXCEPT !.qw = prodQ \otimes fw, !.qg = prodQ \otimes fg, !.qo = prodQ \otimes fo,
                    !.q = prodQ,
                    !.binds = BhpBinds(w, prodQ0, mc.t, p),
                    !.surf = IF pvt THEN [oil |-> perDay(yl.oil), water |-> perDay(yl.water),
                                          gas |-> perDay(yl.gas), liquid |-> perDay(yl.liquid)] ELSE NoSurf,
                    !.oout = IF pvt THEN dt \otimes ((qoOut \oslash b(B("Bo"))) \oplus ((B("Rv") \otimes qgOut) \oslash b(B("Bg")))) ELSE C0,
                    !.gout = IF pvt THEN dt \otimes ((qgOut \oslash b(B("Bg"))) \oplus ((B("Rs") \otimes qoOut) \oslash b(B("Bo")))) ELSE C0]
  ELSE IF w.ctl = "bhp" /\ w.inj THEN
    [Nothing EXCEPT !.qw = IF w.gas THEN C0 ELSE Neg(bq),
                    !.qg = IF w.gas THEN Neg(bq) ELSE C0,
                    !.q = Neg(bq),
                    !.gin = IF w.gas /\ pvt THEN IfPos(Neg(bq), bInjGas, C0) ELSE C0,
                    !.gout = IF w.gas /\ pvt THEN IfPos(Neg(bq), C0, bInjGas) ELSE C0,
                    !.oin = IF w.gas /\ pvt THEN IfPos(Neg(bq), B("Rv") \otimes bInjGas, C0) ELSE C0,
                    !.oout = IF w.gas /\ pvt THEN IfPos(Neg(bq), C0, B("Rv") \otimes bInjGas) ELSE C0]
  ELSE IF w.ctl = "bhp" THEN
    [Nothing EXCEPT !.qw = Neg(bq) \otimes fw, !.qg = Neg(bq) \otimes fg, !.qo = Neg(bq) \otimes fo,
                    !.q = Neg(bq),
                    !.oout = IF pvt THEN IfPos(bq, bOilSurf, C0) ELSE C0,
                    !.oin = IF pvt THEN IfPos(bq, C0, bOilSurf) ELSE C0,
                    !.gout = IF pvt THEN IfPos(bq, bGasSurf, C0) ELSE C0,
                    !.gin = IF pvt THEN IfPos(bq, C0, bGasSurf) ELSE C0]
  ELSE Nothing

-----------------------------------------------------------------------------
(* Explicit saturations *)

\* phase flow out of end a of every connection at the new pressure Q
PhaseFlows(m, Q, sw, sg, mob) ==
  LET pcg == IF m.f.pcog_pos THEN TLCEval([c \in 1..m.n |-> PcOG(m.f, sg[c])]) ELSE <<>>
      head(k, rho(_)) ==
        IF k.d = "z" /\ HasGravity(m)
        THEN (m.g \otimes (Half \otimes (rho(k.a) \oplus rho(k.b)))) \otimes m.dz ELSE C0
      ups(k, pot, fn(_)) == IfPos(pot, fn(k.a), fn(k.b))
  IN TLCEval([l \in 1..Len(m.links) |->
     LET k == m.links[l]
         dp == Diff(Q[k.a], Q[k.b])
         potw == IF k.d = "z" /\ HasGravity(m) THEN dp \oplus head(k, LAMBDA c : RhoW(m.f, Q[c])) ELSE dp
         potg0 == IF k.d = "z" /\ HasGravity(m) THEN dp \oplus head(k, LAMBDA c : RhoG(m.f, Q[c])) ELSE dp
         potg == IF m.f.pcog_pos THEN potg0 \ominus (pcg[k.b] \ominus pcg[k.a]) ELSE potg0
         wu == ups(k, potw, LAMBDA c : mob[c].w)
         gu == ups(k, potg, LAMBDA c : mob[c].g)
     IN [w |-> (k.t \otimes wu) \otimes potw, g |-> (k.t \otimes gu) \otimes potg]])

\* saturation increments of a step before any limit
Increments(m, outs, dt, Q, sw, sg, mob) ==
  LET fl == PhaseFlows(m, Q, sw, sg, mob)
      fw == [l \in 1..Len(m.links) |-> fl[l].w]
      fg == [l \in 1..Len(m.links) |-> fl[l].g]
  IN TLCEval([c \in 1..m.n |->
     LET mine == SelectSeq([i \in 1..Len(m.wells) |-> i], LAMBDA i : m.wells[i].cell = c)
         qw == NSum([i \in 1..Len(mine) |-> outs[mine[i]].qw])
         qg == NSum([i \in 1..Len(mine) |-> outs[mine[i]].qg])
         s == dt \oslash m.pv[c]
     IN [w |-> s \otimes (qw \ominus Div(m, fw, c)), g |-> s \otimes (qg \ominus Div(m, fg, c))]])

\* limits of the step: residual saturations, or the starting value where a phase starts below it
Window(m, sw, sg) ==
  LET so == (C1 \ominus sw) \ominus sg IN
  [sw |-> NMin(sw, m.f.sw_cr), sg |-> NMin(sg, m.f.sg_cr), so |-> NMin(NMax(so, C0), m.f.so_r)]

\* one sub-step: add, then gas, water, gas back into the window
SubStep(x, d, w) ==
  LET g1 == NMin(NMax(x.sg \oplus d.g, w.sg), (C1 \ominus w.so) \ominus w.sw)
      w1 == NMin(NMax(x.sw \oplus d.w, w.sw), (C1 \ominus w.so) \ominus g1)
      g2 == NMin(NMax(g1, w.sg), (C1 \ominus w.so) \ominus w1)
  IN [sw |-> w1, sg |-> g2]
RECURSIVE Iterate(_, _, _, _)
Iterate(x, d, w, k) == IF k = 0 THEN x ELSE Iterate(TLCEval(SubStep(x, d, w)), d, w, k - 1)

\* number of sub-steps: every change within the remaining room and within max_saturation_change
Ratio(m, sw, sg, d) ==
  LET up == Room(((C1 \ominus m.f.so_r) \ominus sg) \ominus sw)
      wd == Room(sw \ominus m.f.sw_cr)
      gd == Room(sg \ominus m.f.sg_cr)
      r(x, u, l) == IfPos(x, x \oslash NMax(u, EPS12), Neg(x) \oslash NMax(l, EPS12))
  IN NMax(NMax(r(d.w, up, wd), r(d.g, up, gd)),
          NMax(NAbs(d.w) \oslash m.maxds, NAbs(d.g) \oslash m.maxds))
RECURSIVE MaxOver(_, _)
MaxOver(s, k) == IF k = 1 THEN s[1] ELSE NMax(MaxOver(s, k - 1), s[k])
SubSteps(m, sw, sg, d) ==          \* {fewest, most} within rounding
  LET r == MaxOver(TLCEval([c \in 1..m.n |-> Ratio(m, sw[c], sg[c], d[c])]), m.n)
      fit(k) == IF k < 1 THEN 1 ELSE IF k > m.maxsub THEN m.maxsub ELSE k
  IN {fit(CeilLo(r)), fit(CeilHi(r))}

\* does the increment d stay surely inside the window, so that no limit acts?
Free(x, d, w) ==
  LET s == x.sw \oplus d.w  g == x.sg \oplus d.g  top == C1 \ominus w.so IN
  /\ SurelyLe(w.sw, s) /\ SurelyLe(w.sg, g) /\ SurelyLe(s \oplus g, top)
  /\ SurelyLe(x.sw \oplus x.sg, top)
  /\ SurelyLe(g, top \ominus w.sw)
RoundOff == Dec("2e-6")           \* adding up to 20 increments in binary32
StoreOff == Dec("3e-7")           \* limits are stored in binary32
NewSats(m, outs, dt, Q, sw, sg, mob) ==
  LET d == Increments(m, outs, dt, Q, sw, sg, mob)
      ns == SubSteps(m, sw, sg, d)
      n1 == CHOOSE k \in ns : \A j \in ns : k <= j
      n2 == CHOOSE k \in ns : \A j \in ns : k >= j
      part(e, k) == [w |-> e.w \oslash Int2N(k), g |-> e.g \oslash Int2N(k)]
  IN TLCEval([c \in 1..m.n |->
     LET x == [sw |-> sw[c], sg |-> sg[c]]
         w == Window(m, sw[c], sg[c])
     IN IF Free(x, d[c], w)
        THEN [sw |-> Widen(x.sw \oplus d[c].w, RoundOff), sg |-> Widen(x.sg \oplus d[c].g, RoundOff),
              free |-> TRUE, d |-> d[c]]
        ELSE LET a == Iterate(x, part(d[c], n1), w, n1)
                 b == IF n1 = n2 THEN a ELSE Iterate(x, part(d[c], n2), w, n2)
             IN [sw |-> Widen(Hull(a.sw, b.sw), StoreOff), sg |-> Widen(Hull(a.sg, b.sg), StoreOff), free |-> FALSE, d |-> d[c]]])

Sats(m, vals, dt, Q, sw, sg) ==
  LET mob == Mob(m, Q, sw, sg)
      outs == TLCEval([i \in 1..Len(m.wells) |-> WellOut(m, m.wells[i], vals[i], dt, Q, sw, sg, mob)])
  IN [outs |-> outs, new |-> NewSats(m, outs, dt, Q, sw, sg, mob)]

-----------------------------------------------------------------------------
(* Ledgers of one step: saturation changes weighted with pore volume and density at Q *)

MassMoves(m, Q, sw0, sg0, sw1, sg1) ==
  LET ph(k) == TLCEval([c \in 1..m.n |->
        LET dw == Diff(sw1[c], sw0[c])  dg == Diff(sg1[c], sg0[c]) IN
        CASE k = "water" -> (dw \otimes m.pv[c]) \otimes RhoW(m.f, Q[c])
          [] k = "gas"   -> (dg \otimes m.pv[c]) \otimes RhoG(m.f, Q[c])
          [] OTHER       -> (Neg(dw \oplus dg) \otimes m.pv[c]) \otimes RhoO(m.f, Q[c])])
      tot(k) == [in |-> NSum([c \in 1..m.n |-> NMax(ph(k)[c], C0)]),
                 out |-> NSum([c \in 1..m.n |-> NMax(Neg(ph(k)[c]), C0)])]
  IN TLCEval([water |-> tot("water"), oil |-> tot("oil"), gas |-> tot("gas")])
ComponentMoves(m, outs) ==
  LET s(k) == NSum([i \in 1..Len(outs) |-> outs[i][k]]) IN
  [oin |-> s("oin"), oout |-> s("oout"), gin |-> s("gin"), gout |-> s("gout")]
=============================================================================
