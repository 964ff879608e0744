"""Random scenarios for the step properties.  Everything is drawn from one random.Random."""
import random

MD = 9.869233e-16

SHAPES = [(1, 1, 1), (2, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 2), (1, 1, 3), (2, 2, 1), (3, 2, 1),
          (2, 2, 2), (3, 2, 2), (2, 3, 2), (4, 3, 1), (3, 3, 2),
          (2, 1, 3), (1, 2, 4), (2, 2, 3), (3, 2, 3), (1, 5, 1), (1, 4, 2), (5, 1, 2),
          (6, 2, 1), (1, 1, 6), (4, 4, 1), (3, 3, 3), (2, 4, 3)]

LARGE = [(12, 1, 1), (1, 11, 1), (1, 1, 13), (6, 5, 1), (3, 4, 4), (9, 1, 4), (1, 8, 3)]


def pvt_table(r, flat=False):
    n = r.choice([2, 3, 4, 6])
    lo, hi = r.choice([r.uniform(1, 8)] * 3 + [r.uniform(0.15, 1)]), r.uniform(35, 60)
    P = [lo + (hi - lo) * i / (n - 1) for i in range(n)]
    if n > 2 and r.random() < 0.5:
        P = [lo] + sorted(r.uniform(lo + 1, hi - 1) for _ in range(n - 2)) + [hi]
    dec = lambda a, b: [a + (b - a) * (p - P[0]) / (P[-1] - P[0]) for p in P]
    bg0 = r.uniform(0.01, 0.05)
    t = {"pressure_MPa": P,
         "Bo": dec(r.uniform(1.2, 1.6), r.uniform(1.02, 1.15)),
         "Bw": dec(r.uniform(1.01, 1.08), r.uniform(0.97, 1.0)),
         "Bg": [bg0 * P[0] / p + 0.002 for p in P],
         "mu_o_cP": [r.uniform(0.5, 4) for _ in P], "mu_w_cP": [r.uniform(0.3, 0.8) for _ in P],
         "mu_g_cP": [r.uniform(0.01, 0.04) for _ in P],
         "Rs_m3m3": dec(r.uniform(5, 40), r.uniform(60, 180))}
    if r.random() < 0.7:
        t["Rv_m3m3"] = [r.uniform(0, 0.003) * p / P[-1] for p in P] if r.random() < .8 else [0.0] * n
    return t


def fluid(r, theme):
    stone = r.random() < 0.4
    swc, sor, sgc = r.choice([0.0, 0.1, 0.2, 0.25]), r.choice([0.0, 0.1, 0.2, 0.3]), r.choice([0.0, 0.0, 0.05, 0.1])
    rp = {"model": "stone2" if stone else "corey", "nw": r.choice([1, 1.5, 2, 3, 4]), "no": r.choice([1, 2, 2.5, 3]),
          "ng": r.choice([1, 2, 3]), "sw_cr": swc, "so_r": sor, "sg_cr": sgc}
    if r.random() < 0.6:
        rp["krw_end"] = r.uniform(0.2, 1.0)
        rp["krg_end"] = r.uniform(0.3, 1.0)
    if stone:
        if r.random() < 0.6:
            rp["ko_end_w"] = r.uniform(0.6, 1.0)
            rp["ko_end_g"] = r.uniform(0.6, 1.0)
        if r.random() < 0.5:
            rp["now"] = r.choice([1.5, 2, 3])
            rp["nog"] = r.choice([1, 2, 3])
    f = {"pressure": r.uniform(8, 32), "s_w": 0.3, "s_g": 0.0,
         "mu_oil": r.uniform(0.5, 6), "mu_water": r.uniform(0.3, 1.0), "mu_gas": r.uniform(0.01, 0.05),
         "rho_oil": r.uniform(700, 920), "rho_water": r.uniform(980, 1150), "rho_gas": r.uniform(0.7, 150),
         "c_oil": 10 ** r.uniform(-4.5, -2.5), "c_water": 10 ** r.uniform(-5, -3), "c_gas": 10 ** r.uniform(-3, -1.5),
         "c_rock": 10 ** r.uniform(-5, -3.5), "relative_permeability": rp}
    for k in ("mu_oil", "mu_water", "mu_gas", "rho_oil", "rho_water", "rho_gas", "c_rock"):
        if r.random() < 0.1:
            del f[k]
    cap = theme.get("cap", 0.3)
    if r.random() < cap:
        pc = {"pc_scale": 10 ** r.uniform(3, 5), "pc_exponent": r.choice([0.5, 1.0, 1.5])}
        if r.random() < 0.5:
            f["capillary_pressure"] = pc
        else:
            f.update(pc)
    if r.random() < cap:
        f["capillary_pressure_og"] = {"pc_scale": 10 ** r.uniform(3, 5), "pc_exponent": r.choice([0.5, 1.0, 1.5])}
    return f


def saturations(r, n, f, theme):
    rp = f["relative_permeability"]
    swc, sor, sgc = rp["sw_cr"], rp["so_r"], rp["sg_cr"]
    kind = r.choice(theme.get("sats", ["mid", "mid", "wide", "edge", "uniform"]))
    sw, sg = [], []
    u = None
    for _ in range(n):
        if kind == "uniform" and u is not None:
            a, b = u
        elif kind == "edge":
            gas = r.choice([0.0, sgc, sgc + 0.1])
            a = r.choice([swc, 1 - sor - gas, swc + 0.15, 0.5 * swc, swc + 1e-4])
            b = gas
            if r.random() < 0.15:
                a, b = 1 - sor * 0.5 - gas, gas        # oil already below its residual
        elif kind == "wide":
            a = r.uniform(0, 1)
            b = r.uniform(0, 1 - a)
        else:
            a = r.uniform(swc + 0.1, 0.6)
            b = r.choice([0.0, r.uniform(0, max(0.0, 1 - a - sor - 0.1))])
        a = min(max(a, 0.0), 1.0)
        b = min(max(b, 0.0), 1.0 - a)
        u = (a, b)
        sw.append(a)
        sg.append(b)
    return sw, sg


def well(r, idx, dims, f, has_pvt, theme, kmean, dz):
    nx, ny, nz = dims
    pos = [r.randrange(nx), r.randrange(ny), r.randrange(nz)]
    kind = r.choice(theme.get("wells", ["inj", "prod", "prod", "bhpi", "bhpp", "surf", "bmin"]))
    inj = kind in ("inj", "bhpi", "surfi")
    w = {"name": r.choice(["W", "P-", "inj ", "A", "z"]) + str(r.choice([idx, 9 - idx, 7])), "type": "injector" if inj else "producer", "radius": r.choice([0.05, 0.1, 0.15])}
    if r.random() < 0.5:
        w["coordinates"] = pos
    else:
        w["i"], w["j"], w["k"] = pos
    ctl = "bhp" if kind in ("bhpi", "bhpp") else "rate"
    p0 = f.get("pressure", 20.0)
    if ctl == "rate":
        val = r.choice([0.0, r.uniform(0.05, 1), r.uniform(1, 20), r.uniform(20, 300)]) if r.random() < 0.9 \
            else -r.uniform(0.1, 3)
        val *= theme.get("rate", 1.0)
    else:
        val = p0 + r.uniform(-6, 6) if r.random() < 0.4 else (p0 + r.uniform(1, 8) if inj else p0 - r.uniform(1, 7))
    if r.random() < 0.5:
        w["control"] = {"type": ctl, "value": val}
    else:
        w["control_type"], w["control_value"] = ctl, val
    if inj and r.random() < 0.5:
        w["injected_phase"] = r.choice(["gas", "gas", "water"])
    if ctl == "rate":
        if kind in ("surf", "surfi") or r.random() < 0.25:
            w["rate_type"] = "surface"
            if not inj and r.random() < 0.85:
                w["surface_phase"] = r.choice(["oil", "water", "gas", "liquid"])
            if w.get("injected_phase") == "gas" or w.get("surface_phase") == "gas":
                for holder, k in ((w.get("control", {}), "value"), (w, "control_value")):
                    if k in holder:
                        holder[k] *= r.choice([1.0, 40.0])
        if not inj and r.random() < theme.get("limits", 0.25):
            w["limits"] = {k: 10 ** r.uniform(-1, 2.3) for k in r.sample(["wopr", "wlpr", "wgpr", "liqr"], r.randint(1, 3))}
        if not inj and (kind == "bmin" or r.random() < 0.1):
            w["bhp_min"] = p0 + r.uniform(-6, 1)
    return w


def scenario(r, theme=None):
    """-> (cfg, pvt table or None, overrides, list of (dt, plan), control changes)"""
    theme = theme or {}
    dims = list(r.choice(theme.get("shapes", SHAPES if r.random() < 0.97 else LARGE)))
    n = dims[0] * dims[1] * dims[2]
    gs = [r.choice([5.0, 10.0, 25.0, 50.0]), r.choice([5.0, 10.0, 30.0]), r.choice([1.0, 3.0, 8.0])]
    k = 10 ** r.uniform(0.5, 3)
    res = {"dimensions": dims, "grid_size": gs, "porosity": r.choice([0.08, 0.2, 0.3]), "permeability": k,
           "k_vertical_fraction": r.choice([0.1, 0.3, 1.0])}
    if r.random() < 0.1:
        del res["k_vertical_fraction"]
    f = fluid(r, theme)
    has_pvt = r.random() < theme.get("pvt", 0.5)
    table = pvt_table(r) if has_pvt else None
    ov = {}
    if r.random() < theme.get("hetero", 0.6):
        def perm(scale):
            return [0.0 if r.random() < 0.06 else scale * MD * 10 ** r.uniform(-0.7, 0.7) for _ in range(n)]
        kx = perm(k)
        ov["kx"] = kx
        ov["ky"] = kx if r.random() < 0.5 else perm(k)
        ov["kz"] = perm(k * 0.2)
    if r.random() < 0.4:
        v = gs[0] * gs[1] * gs[2] * res["porosity"]
        ov["pv"] = [v * r.uniform(0.3, 1.5) for _ in range(n)]
    p0 = f["pressure"] * 1e6
    if r.random() < theme.get("pfield", 0.7):
        amp = r.choice([1e4, 3e5, 2e6, 6e6])
        ov["P"] = [p0 + r.uniform(-amp, amp) for _ in range(n)]
    sw, sg = saturations(r, n, f, theme)
    if n > 0 and r.random() < 0.9:
        ov["sw"], ov["sg"] = sw, sg
    else:
        f["s_w"], f["s_g"] = round(sw[0], 3), round(min(sg[0], 1 - round(sw[0], 3)), 3)
    nw = r.choice(theme.get("nwells", [0, 1, 1, 2, 3, 4]))
    wells = [well(r, i, dims, f, has_pvt, theme, k, gs[2]) for i in range(nw)]
    if len(wells) > 1 and r.random() < theme.get("crowd", 0.25):          # several wells in one cell
        a = r.choice(wells)
        pos = a.get("coordinates") or [a["i"], a["j"], a["k"]]
        for b in wells if r.random() < 0.3 else [wells[-1], wells[0]]:
            for q in ("coordinates", "i", "j", "k"):
                b.pop(q, None)
            b["coordinates"] = list(pos)
    # a well in a cell without permeability has no index: keep such wells on rate control
    if "kx" in ov:
        for w in wells:
            i, j, kk = w.get("coordinates") or (w["i"], w["j"], w["k"])
            c = (i * dims[1] + j) * dims[2] + kk
            for q in ("kx", "ky"):
                if ov[q][c] == 0.0:
                    ov[q] = list(ov[q])
                    ov[q][c] = k * MD
    sim = {"solver_type": "impes"}
    if r.random() < 0.3:
        sim["global_rate_scale"] = r.choice([0.5, 2.0, 0.1])
    if r.random() < 0.4:
        sim["max_saturation_change"] = r.choice([0.01, 0.05, 0.3, 1.0])
    if r.random() < 0.3:
        sim["max_substeps"] = r.choice([1, 2, 5, 50])
    if r.random() < theme.get("f64", 0.4):
        sim["pressure_float64"] = True
    if r.random() < theme.get("amg", 0.1):
        sim["pressure_solver"] = "amg"
    if r.random() < 0.12:
        sim["cg_tolerance"] = r.choice([1e-5, 1e-7, 3e-6])
    if r.random() < 0.4:                                   # only run() may look at these
        sim["time_step_days"] = r.choice([0.01, 1.0, 10.0])
    if r.random() < 0.2:
        sim["total_time_days"] = r.choice([0.005, 0.5, 5.0])
    if r.random() < 0.1:
        sim["steps_per_report"] = sim["save_interval"] = r.choice([1, 3])
    if r.random() < 0.08:
        sim["debug_component_balance"] = True
    if sim.get("pressure_solver") == "amg" and r.random() < 0.5:
        sim["amg"] = {"theta": r.choice([0.1, 0.25, 0.5]), "max_levels": r.choice([2, 5, 12]), "coarsest_size": r.choice([2, 4, 160]),
                      "tol": r.choice([1e-6, 1e-5, 1e-4]), "max_cycles": r.choice([10, 40])}
    if r.random() < 0.3:
        sim["max_time_step_attempts"] = r.choice([1, 2, 3])
    if r.random() < 0.3:
        sim["dt_reduction_factor"] = r.choice([2.0, 3.0, 1.5])
    steps = []
    nsteps = r.choice([1, 1, 2, 2, 3, 6]) if n > 6 or r.random() < 0.97 else 18
    span = (-3, 1.3) if r.random() < 0.92 else r.choice([(-5.5, -3), (1.3, 2.6)])
    dt, even = None, r.random() < 0.25
    for _ in range(theme.get("steps", nsteps)):
        if dt is None or not even:
            dt = 86400.0 * 10 ** r.uniform(*theme.get("dt", span))
        plan = [r.random() < 0.5 for _ in range(r.randint(1, 5))] if r.random() < theme.get("cuts", 0.15) else None
        steps.append((dt, plan))
    if wells and r.random() < theme.get("fill", 0.15):      # rates of the order of what their cells hold
        for w in wells:
            i, j, kk = w.get("coordinates") or (w["i"], w["j"], w["k"])
            v = ov["pv"][(i * dims[1] + j) * dims[2] + kk] if "pv" in ov else gs[0] * gs[1] * gs[2] * res["porosity"]
            for holder, q in ((w.get("control", {}), "value"), (w, "control_value")):
                if q in holder and (w.get("control_type") or w["control"]["type"]) == "rate" and r.random() < 0.8:
                    holder[q] = r.choice([0.05, 0.3, 1.0]) * r.uniform(0.5, 1.5) * v * 86400.0 / steps[0][0]
                    w.pop("rate_type", None)
    if r.random() < 0.08:                                  # zero is a value, not a missing entry
        where = [(res, "k_vertical_fraction"), (f, "c_oil"), (f, "c_water"), (f, "c_gas"), (f["relative_permeability"], "krw_end"),
                 (f["relative_permeability"], "krg_end"), (f["relative_permeability"], "ko_end_w"), (sim, "global_rate_scale")]
        for w in wells:
            if w["type"] == "producer" and (w.get("control_type") or w["control"]["type"]) == "rate":
                where += [(w, "bhp_min")] + [(w["limits"], q) for q in w.get("limits", {})]
        for d, q in r.sample(where, r.choice([1, 1, 2])):
            d[q] = 0.0
    cfg = {"reservoir": res, "fluid": f, "wells": wells, "simulation": sim}
    return cfg, table, ov, steps
