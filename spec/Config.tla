------------------------------- MODULE Config -------------------------------
(* From the user's configuration (field units, defaults, two formats) to the
   model the simulator must work on (SI, one value per cell).
   A configuration is the JSON document itself; numbers are raw pairs, except
   grid dimensions, well positions and counters, which are plain integers. *)
EXTENDS Fluid, TLCExt

Has(r, k) == k \in DOMAIN r
Get(r, k, d) == IF Has(r, k) THEN r[k] ELSE d
\* a number of the configuration, or its default
Num_(r, k, d) == IF Has(r, k) THEN Raw(r[k]) ELSE Dec(d)

-----------------------------------------------------------------------------
(* Grid.  Cells are numbered 1..n in row-major order: z fastest, then y, then x.
   k grows downwards. *)

CellOf(dims, i, j, k) == (i * dims[2] + j) * dims[3] + k + 1
Ix(dims, c) == (c - 1) \div (dims[2] * dims[3])
Iy(dims, c) == ((c - 1) \div dims[3]) % dims[2]
Iz(dims, c) == (c - 1) % dims[3]

MD == Dec("9.869233e-16")         \* one millidarcy in m2
TwoPi == Dec("6.283185307179586")

Uniform(n, x) == TLCEval([c \in 1..n |-> x])

\* series permeability of two neighbours; zero if either is zero
Harmonic(a, b) == ((Dec("2") \otimes a) \otimes b) \oslash ((a \oplus b) \oplus EPS30)

\* connections between neighbours: a the lower index, b the higher one
Links(dims, kx, ky, kz, dx, dy, dz) ==
  LET n == dims[1] * dims[2] * dims[3]
      sx == dims[2] * dims[3]
      gx == (dy \otimes dz) \oslash dx
      gy == (dx \otimes dz) \oslash dy
      gz == (dx \otimes dy) \oslash dz
      X == SelectSeq([c \in 1..n |-> c], LAMBDA c : Ix(dims, c) < dims[1] - 1)
      Y == SelectSeq([c \in 1..n |-> c], LAMBDA c : Iy(dims, c) < dims[2] - 1)
      Z == SelectSeq([c \in 1..n |-> c], LAMBDA c : Iz(dims, c) < dims[3] - 1)
  IN TLCEval(
       [l \in 1..Len(X) |-> [a |-> X[l], b |-> X[l] + sx, d |-> "x",
                             t |-> Harmonic(kx[X[l]], kx[X[l] + sx]) \otimes gx]]
    \o [l \in 1..Len(Y) |-> [a |-> Y[l], b |-> Y[l] + dims[3], d |-> "y",
                             t |-> Harmonic(ky[Y[l]], ky[Y[l] + dims[3]]) \otimes gy]]
    \o [l \in 1..Len(Z) |-> [a |-> Z[l], b |-> Z[l] + 1, d |-> "z",
                             t |-> Harmonic(kz[Z[l]], kz[Z[l] + 1]) \otimes gz]])

\* for every cell, its connections as <<link number, 1 if the cell is end a, else -1>>
Incident(n, links) ==
  LET ids == [l \in 1..Len(links) |-> l] IN
  TLCEval([c \in 1..n |->
     [i \in 1..Len(SelectSeq(ids, LAMBDA l : links[l].a = c \/ links[l].b = c)) |->
        LET l == SelectSeq(ids, LAMBDA x : links[x].a = c \/ links[x].b = c)[i]
        IN <<l, IF links[l].a = c THEN 1 ELSE -1>>]])

-----------------------------------------------------------------------------
(* Fluid *)

NoPvt == [P |-> <<>>]
PvtOf(t) ==                        \* t: the JSON document of the table
  LET col(k) == TLCEval([i \in 1..Len(t.pressure_MPa) |-> Raw(t[k][i])])
  IN TLCEval([P |-> col("pressure_MPa"), Bo |-> col("Bo"), Bw |-> col("Bw"), Bg |-> col("Bg"),
      mu_o |-> col("mu_o_cP"), mu_w |-> col("mu_w_cP"), mu_g |-> col("mu_g_cP"),
      Rs |-> col("Rs_m3m3"),
      Rv |-> IF Has(t, "Rv_m3m3") THEN col("Rv_m3m3")
             ELSE [i \in 1..Len(t.pressure_MPa) |-> C0]])

FluidOf(fc, pvt) ==                \* pvt: <<>> or <<table document>>
  LET rp == Get(fc, "relative_permeability", [none |-> 0])
      new == Has(fc, "capillary_pressure")
      pcr == IF new THEN fc.capillary_pressure ELSE fc
      og == Get(fc, "capillary_pressure_og", [none |-> 0])
      ng == Num_(rp, "ng", "2")
      no == Num_(rp, "no", "2")
      pm(k, d) == Num_(fc, k, d) \oslash MPa
      pcs == Num_(pcr, "pc_scale", "0")
      pgs == Num_(og, "pc_scale", "0")
  IN TLCEval([
      mu_o |-> Num_(fc, "mu_oil", "1") \otimes Milli,
      mu_w |-> Num_(fc, "mu_water", "0.5") \otimes Milli,
      mu_g |-> Num_(fc, "mu_gas", "0.02") \otimes Milli,
      rho_o |-> Num_(fc, "rho_oil", "850"),
      rho_w |-> Num_(fc, "rho_water", "1000"),
      rho_g |-> Num_(fc, "rho_gas", "1"),
      c_o |-> pm("c_oil", "1e-5"), c_w |-> pm("c_water", "1e-5"),
      c_g |-> pm("c_gas", "1e-3"), c_rock |-> pm("c_rock", "1e-5"),
      \* lumped compressibility used without a PVT table
      cf |-> NSum(<<pm("c_oil", "1e-5"), pm("c_water", "1e-5"), pm("c_gas", "1e-3"), pm("c_rock", "1e-5")>>)
               \oslash Dec("3"),
      relperm_model |-> Get(rp, "model", "corey"),
      nw |-> Num_(rp, "nw", "2"), no |-> no, ng |-> ng,
      now |-> IF Has(rp, "now") THEN Raw(rp.now) ELSE no,
      nog |-> IF Has(rp, "nog") THEN Raw(rp.nog) ELSE ng,
      ko_end_w |-> Num_(rp, "ko_end_w", "1"), ko_end_g |-> Num_(rp, "ko_end_g", "1"),
      krw_end |-> Num_(rp, "krw_end", "1"), krg_end |-> Num_(rp, "krg_end", "1"),
      sw_cr |-> Num_(rp, "sw_cr", "0.2"), so_r |-> Num_(rp, "so_r", "0.2"), sg_cr |-> Num_(rp, "sg_cr", "0"),
      pc_scale |-> pcs, pc_zero |-> pcs = C0, pc_pos |-> SurelyLt(C0, pcs),
      pc_exponent |-> Num_(pcr, "pc_exponent", "1.5"),
      pcog_scale |-> pgs, pcog_zero |-> pgs = C0, pcog_pos |-> SurelyLt(C0, pgs),
      pcog_exponent |-> Num_(og, "pc_exponent", "1.5"),
      has_pvt |-> Len(pvt) > 0,
      pvt |-> IF Len(pvt) > 0 THEN PvtOf(pvt[1]) ELSE NoPvt,
      p0 |-> Num_(fc, "pressure", "20") \otimes MPa,
      sw0 |-> Num_(fc, "s_w", "0.2"), sg0 |-> Num_(fc, "s_g", "0")])

-----------------------------------------------------------------------------
(* Wells *)

\* Peaceman: 2 pi k h / ln(ro/rw), ro = 0.28 sqrt(dx2+dy2)/2, k = sqrt(kx ky) of the cell
EquivRadius(dx, dy) == (Dec("0.28") \otimes NSqrt((dx \otimes dx) \oplus (dy \otimes dy))) \oslash Dec("2")
WellIndex(kx, ky, dx, dy, dz, rw) ==
  ((TwoPi \otimes NSqrt(kx \otimes ky)) \otimes dz) \oslash NLn(EquivRadius(dx, dy) \oslash rw)

WellOf(w, dims, kx, ky, dx, dy, dz) ==
  LET pos == IF Has(w, "coordinates") THEN w.coordinates ELSE <<w.i, w.j, w.k>>
      c == CellOf(dims, pos[1], pos[2], pos[3])
      inj == w.type = "injector"
      ctl == IF Has(w, "control") THEN w.control.type ELSE w.control_type
      val == IF Has(w, "control") THEN w.control.value ELSE w.control_value
      rw == Raw(w.radius)
      lim == Get(w, "limits", [none |-> 0])
      bm == Has(w, "bhp_min")
      needs == SurelyLt(rw, EquivRadius(dx, dy))
  IN [name |-> w.name, cell |-> c, pos |-> pos, inj |-> inj, ctl |-> ctl, val |-> val,
      gas |-> inj /\ Get(w, "injected_phase", "water") = "gas",
      phase |-> Get(w, "injected_phase", "water"),
      surface |-> Get(w, "rate_type", "reservoir") = "surface",
      sphase |-> Get(w, "surface_phase", "liquid"),
      lim |-> lim, has_bmin |-> bm,
      bmin |-> IF bm THEN Raw(w.bhp_min) \otimes MPa ELSE C0,
      wi |-> IF needs THEN WellIndex(kx[c], ky[c], dx, dy, dz, rw) ELSE C0]

-----------------------------------------------------------------------------
(* The whole model.  `ov` holds fields a user set on the reservoir before the
   wells and the simulator were built: per-cell permeabilities and pore volumes. *)

ModelOf(cfg, pvt, ov) ==
  LET rc == cfg.reservoir
      dims == Get(rc, "dimensions", <<10, 10, 1>>)
      n == dims[1] * dims[2] * dims[3]
      gs == IF Has(rc, "grid_size") THEN [q \in 1..3 |-> Rnd(Raw(rc.grid_size[q]))]
            ELSE [q \in 1..3 |-> Dec("10")]
      dx == gs[1]  dy == gs[2]  dz == gs[3]
      kh == Num_(rc, "permeability", "100")
      kv == kh \otimes Num_(rc, "k_vertical_fraction", "0.1")
      cells(x) == TLCEval([c \in 1..n |-> Raw(x[c])])
      kx == IF Has(ov, "kx") THEN cells(ov.kx) ELSE Uniform(n, Rnd(kh \otimes MD))
      ky == IF Has(ov, "ky") THEN cells(ov.ky) ELSE Uniform(n, Rnd(kh \otimes MD))
      kz == IF Has(ov, "kz") THEN cells(ov.kz) ELSE Uniform(n, Rnd(kv \otimes MD))
      phi == Rnd(Num_(rc, "porosity", "0.2"))
      vol == (dx \otimes dy) \otimes dz
      pv == IF Has(ov, "pv") THEN cells(ov.pv) ELSE Uniform(n, vol \otimes phi)
      links == Links(dims, kx, ky, kz, dx, dy, dz)
      sim == Get(cfg, "simulation", [none |-> 0])
      ws == cfg.wells
  IN TLCEval([
      dims |-> dims, n |-> n, dx |-> dx, dy |-> dy, dz |-> dz, g |-> Dec("9.81"),
      kx |-> kx, ky |-> ky, kz |-> kz, phi |-> phi, vol |-> vol, pv |-> pv,
      links |-> links, inc |-> Incident(n, links),
      f |-> FluidOf(cfg.fluid, pvt),
      wells |-> [w \in 1..Len(ws) |-> WellOf(ws[w], dims, kx, ky, dx, dy, dz)],
      scale |-> Num_(sim, "global_rate_scale", "1"),
      maxds |-> Num_(sim, "max_saturation_change", "0.05"),
      maxsub |-> Get(sim, "max_substeps", 20),
      attempts |-> Get(sim, "max_time_step_attempts", 5),
      reduce |-> Num_(sim, "dt_reduction_factor", "2"),
      cgtol |-> Num_(sim, "cg_tolerance", "1e-6"),
      amg |-> Get(sim, "pressure_solver", "cg") = "amg",
      amgtol |-> Num_(Get(sim, "amg", [none |-> 0]), "tol", "1e-6"),
      f64 |-> Get(sim, "pressure_float64", FALSE),
      solver |-> Get(sim, "pressure_solver", "cg")])
=============================================================================
