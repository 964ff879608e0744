----------------------------- MODULE Construct -----------------------------
(* Building a model from a configuration document: reservoir, wells, fluid, simulator, in
   this order; the first part that is not valid stops the construction.  What is built is
   Config!ModelOf of the document: SI units, defaults, either of the two formats. *)
EXTENDS Verdict

VARIABLE stage   \* "start", "reservoir", "wells", "fluid", "ready", "rejected"

HasAll(w, ks) == \A k \in ks : Has(w, k)
GridOf(cfg) == LET rc == cfg.reservoir IN
  [dims |-> Get(rc, "dimensions", <<10, 10, 1>>),
   dx |-> IF Has(rc, "grid_size") THEN Raw(rc.grid_size[1]) ELSE Dec("10"),
   dy |-> IF Has(rc, "grid_size") THEN Raw(rc.grid_size[2]) ELSE Dec("10")]
Inside3(dims, pos) == Len(pos) = 3 /\ \A q \in 1..3 : 0 <= pos[q] /\ pos[q] < dims[q]
\* a pressure or a minimum pressure at the well needs a well index, hence a well thinner than the cell
NeedsIndex(w) == (IF Has(w, "control") THEN w.control.type ELSE w.control_type) = "bhp" \/ Has(w, "bhp_min")
ValidWell(g, w) ==
  /\ HasAll(w, {"name", "type", "radius"})
  /\ Has(w, "coordinates") \/ HasAll(w, {"i", "j", "k"})
  /\ IF Has(w, "control") THEN HasAll(w.control, {"type", "value"}) ELSE HasAll(w, {"control_type", "control_value"})
  /\ Inside3(g.dims, IF Has(w, "coordinates") THEN w.coordinates ELSE <<w.i, w.j, w.k>>)
  /\ NeedsIndex(w) => SurelyLt(Raw(w.radius), EquivRadius(g.dx, g.dy))
ValidWells(cfg) == LET g == GridOf(cfg) IN \A i \in 1..Len(cfg.wells) : ValidWell(g, cfg.wells[i])
Filled(cfg) == Num_(cfg.fluid, "s_w", "0.2") \oplus Num_(cfg.fluid, "s_g", "0")
\* more water and gas than pore space; within rounding of one either verdict is right
MayFluid(cfg) == MayLe(Filled(cfg), Dec("1.0000002"))
MustFluid(cfg) == SurelyLe(Filled(cfg), C1)

Begin == stage = "start" /\ stage' = "reservoir"
Wells(ok) == stage = "reservoir" /\ stage' = IF ok THEN "wells" ELSE "rejected"
FluidMade(ok) == stage = "wells" /\ stage' = IF ok THEN "fluid" ELSE "rejected"
Ready == stage = "fluid" /\ stage' = "ready"

-----------------------------------------------------------------------------
(* What must have been built; m: the model of the document *)

Same(what, got, want) == If(Agrees(want, got), Fail(what, 0, Str(want), FStr(got)))
Everywhere(what, n, got, want(_)) ==
  IF Len(got) # n THEN {Fail(what \o ": number of cells", 0, ToString(n), ToString(Len(got)))}
  ELSE Match(what, got, want)
RockC(cfg) == Num_(cfg.reservoir, "c_rock", "1e-5") \oslash MPa
ReservoirClauses(m, r, rockc) ==
  If(r.dims = m.dims, Fail("grid dimensions", 0, ToString(m.dims), ToString(r.dims)))
  \cup Same("cell size x", r.gs[1], m.dx) \cup Same("cell size y", r.gs[2], m.dy) \cup Same("cell size z", r.gs[3], m.dz)
  \cup Same("cell volume", r.vol, Rnd(m.vol)) \cup Same("rock compressibility (1/Pa)", r.crock, rockc)
  \cup Everywhere("porosity", m.n, r.phi, LAMBDA c : m.phi)
  \cup Everywhere("pore volume", m.n, r.pv, LAMBDA c : Rnd(m.pv[c]))
  \cup Everywhere("x permeability (m2)", m.n, r.kx, LAMBDA c : m.kx[c])
  \cup Everywhere("y permeability (m2)", m.n, r.ky, LAMBDA c : m.ky[c])
  \cup Everywhere("z permeability (m2)", m.n, r.kz, LAMBDA c : m.kz[c])
  \* numbering with x fastest: a bijection
  \cup LET d == m.dims  want == [q \in 1..m.n |-> LET c == r.cells[q] IN c[1] + c[2] * d[1] + c[3] * d[1] * d[2]]
       IN If(want = r.index, Fail("linear cell index", 0, ToString(want), ToString(r.index)))

WellClauses(m, cfg, got) ==
  IF Len(got) # Len(cfg.wells) THEN {Fail("number of wells", 0, ToString(Len(cfg.wells)), ToString(Len(got)))}
  ELSE UNION {LET w == m.wells[i]  g == got[i]  d == m.dims
                  flat == w.pos[1] + w.pos[2] * d[1] + w.pos[3] * d[1] * d[2] IN
         If(<<g.name, g.pos, g.inj, g.ctl>> = <<w.name, w.pos, w.inj, w.ctl>>,
            Fail("well identity, cell and control", i, ToString(<<w.name, w.pos, w.inj, w.ctl>>), ToString(<<g.name, g.pos, g.inj, g.ctl>>)))
         \cup If(g.flat = flat, Fail("well cell number", i, ToString(flat), ToString(g.flat)))
         \cup If(g.val = w.val, Fail("well control value", i, FStr(w.val), FStr(g.val)))
         \cup If(g.phase = w.phase /\ g.surface = w.surface, Fail("injected phase and rate type", i, ToString(<<w.phase, w.surface>>), ToString(<<g.phase, g.surface>>)))
         \cup If(g.lim = w.lim, Fail("well limits", i, ToString(w.lim), ToString(g.lim)))
         \cup If(Len(g.bmin) = (IF w.has_bmin THEN 1 ELSE 0), Fail("minimum pressure given", i, ToString(w.has_bmin), ToString(g.bmin)))
         \cup (IF w.has_bmin /\ Len(g.bmin) = 1 THEN If(g.bmin[1] = cfg.wells[i].bhp_min, Fail("minimum pressure", i, FStr(cfg.wells[i].bhp_min), FStr(g.bmin[1]))) ELSE {})
         \cup (IF Len(g.wi) = 1 THEN If(Agrees(w.wi, g.wi[1]), Fail("Peaceman index (m3)", i, Str(w.wi), FStr(g.wi[1])))
               ELSE If(w.wi = C0, Fail("Peaceman index", i, Str(w.wi), "none")))
       : i \in 1..Len(got)}

FluidClauses(m, r) ==
  LET f == m.f IN
  Everywhere("initial pressure (Pa)", m.n, r.P, LAMBDA c : Rnd(f.p0))
  \cup Everywhere("initial water saturation", m.n, r.sw, LAMBDA c : Rnd(f.sw0))
  \cup Everywhere("initial gas saturation", m.n, r.sg, LAMBDA c : Rnd(f.sg0))
  \cup Everywhere("initial oil saturation", m.n, r.so, LAMBDA c : (C1 \ominus Rnd(f.sw0)) \ominus Rnd(f.sg0))
  \* the rock-fluid functions at probe arguments, where a table does not take over
  \cup Match("water relative permeability", r.krw, LAMBDA i : KrW(f, Raw(r.qw[i])))
  \cup Match("oil relative permeability", r.kro, LAMBDA i : KrO(f, Raw(r.qw[i]), Raw(r.qg[i])))
  \cup Match("gas relative permeability", r.krg, LAMBDA i : KrG(f, Raw(r.qg[i])))
  \cup Match("capillary pressure", r.pc, LAMBDA i : Pc(f, Raw(r.qw[i])))
  \cup Match("gas-oil capillary pressure", r.pcog, LAMBDA i : PcOG(f, Raw(r.qg[i])))
  \cup Match("water density", r.rw, LAMBDA i : RhoW(f, Raw(r.qp[i])))
  \cup Match("oil density", r.ro, LAMBDA i : RhoO(f, Raw(r.qp[i])))
  \cup Match("gas density", r.rg, LAMBDA i : RhoG(f, Raw(r.qp[i])))
  \cup Match("viscosities (Pa s)", r.mu, LAMBDA i : <<MuW(f, f.p0), MuO(f, f.p0), MuG(f, f.p0)>>[i])
  \cup Match("total compressibility", r.ct, LAMBDA i : CT(f, Raw(r.qp[i]), Raw(r.qw[i]), Raw(r.qg[i])))
=============================================================================
