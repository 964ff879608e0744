"""The small configurations that the specification is explored on (MCOilSim) and replayed from.

Shared by TLC (through a JSON file) and by the replay on the real simulator."""
from enc import raw, doc

MD = 9.869233e-16
DAY = 86400.0

PVT = {"pressure_MPa": [5.0, 15.0, 30.0, 45.0], "Bo": [1.3, 1.25, 1.18, 1.12], "Bw": [1.03, 1.02, 1.005, 0.99],
       "Bg": [0.03, 0.011, 0.006, 0.004], "mu_o_cP": [1.5, 1.3, 1.4, 1.7], "mu_w_cP": [0.5, 0.5, 0.52, 0.55],
       "mu_g_cP": [0.014, 0.018, 0.024, 0.03], "Rs_m3m3": [20.0, 60.0, 110.0, 140.0],
       "Rv_m3m3": [0.0002, 0.0008, 0.0015, 0.002]}


def fluid(**kw):
    f = {"pressure": 20.0, "s_w": 0.4, "s_g": 0.1, "mu_oil": 2.0, "mu_water": 0.5, "mu_gas": 0.02,
         "rho_oil": 850.0, "rho_water": 1020.0, "rho_gas": 120.0, "c_oil": 1e-4, "c_water": 4e-4, "c_gas": 5e-3,
         "c_rock": 1e-4,
         "relative_permeability": {"model": "corey", "nw": 2.0, "no": 2.0, "ng": 2.0, "sw_cr": 0.2, "so_r": 0.2,
                                   "sg_cr": 0.05, "krw_end": 0.6, "krg_end": 0.8}}
    f.update(kw)
    return f


STONE = {"model": "stone2", "nw": 3.0, "no": 2.0, "ng": 1.0, "now": 2.0, "nog": 2.0, "sw_cr": 0.15, "so_r": 0.25,
         "sg_cr": 0.0, "krw_end": 0.5, "krg_end": 0.9, "ko_end_w": 0.9, "ko_end_g": 0.8}


def res(dims, **kw):
    r = {"dimensions": list(dims), "grid_size": [10.0, 20.0, 4.0], "porosity": 0.2, "permeability": 150.0,
         "k_vertical_fraction": 0.2}
    r.update(kw)
    return r


def W(name, pos, typ, ctl, val, **kw):
    w = {"name": name, "type": typ, "coordinates": list(pos), "radius": 0.1, "control_type": ctl, "control_value": val}
    w.update(kw)
    return w


def entry(i, dims, wells, tags, fl=None, pvt=None, rs=None, sim=None, ov=None, sw=None, sg=None, dP=None,
          dts=(0.5, 30.0), ctls=(), calls=2, phys=True):
    n = dims[0] * dims[1] * dims[2]
    fl = fl or fluid()
    sw = sw or [0.4] * n
    sg = sg or [0.1] * n
    P = [fl["pressure"] * 1e6 + (dP[c] if dP else 0.0) for c in range(n)]
    s = {"solver_type": "impes", "pressure_float64": True, "max_time_step_attempts": 2, "cg_max_iter": 2000}
    s.update(sim or {})
    o = {"sw": sw, "sg": sg, "P": P}
    o.update(ov or {})
    return {"id": i, "cfg": {"reservoir": rs or res(dims), "fluid": fl, "wells": wells, "simulation": s}, "pvt": pvt,
            "ov": o, "dts": [d * DAY for d in dts], "ctls": [list(c) for c in ctls], "calls": calls, "phys": phys,
            "tags": tags}


def entries():
    E = []
    a = E.append
    two, three, col, quad = (2, 1, 1), (3, 1, 1), (1, 1, 3), (2, 2, 1)
    vert = (1, 1, 2)
    inj = lambda p, v, **k: W("I", p, "injector", "rate", v, **k)
    prod = lambda p, v, **k: W("P", p, "producer", "rate", v, **k)
    bi = lambda p, v, **k: W("BI", p, "injector", "bhp", v, **k)
    bp = lambda p, v, **k: W("BP", p, "producer", "bhp", v, **k)
    # --- nothing drives it, or only a pressure difference / gravity / capillarity
    a(entry("closed2", two, [], ["core"], dP=[2e6, -2e6]))
    a(entry("still", three, [], ["core"]))
    a(entry("column", col, [], ["core"], sg=[0.0, 0.3, 0.1], sw=[0.7, 0.3, 0.4], dts=(0.5, 20.0)))
    a(entry("columnpvt", vert, [], ["core"], pvt=PVT, sg=[0.05, 0.4], sw=[0.6, 0.25], fl=fluid(rho_gas=0.9), dts=(0.5, 20.0)))
    a(entry("cap", two, [], ["core"], fl=fluid(pc_scale=2e4, pc_exponent=1.0, capillary_pressure_og={"pc_scale": 3e4, "pc_exponent": 1.0}),
            sw=[0.3, 0.6], sg=[0.3, 0.0]))
    a(entry("edge", two, [], ["core", "C01"], sw=[0.8, 0.2], sg=[0.0, 0.6], dP=[3e6, -3e6], dts=(1.0, 200.0)))
    a(entry("below", two, [], ["C01", "core"], sw=[0.05, 0.9], sg=[0.02, 0.05], dP=[3e6, -3e6], dts=(1.0, 100.0)))
    a(entry("barrier", three, [], ["core", "C01"], ov={"kx": [150 * MD, 0.0, 150 * MD]}, dP=[2e6, 0, -2e6]))
    # --- reservoir-rate wells
    a(entry("flood", three, [inj([0, 0, 0], 8.0), prod([2, 0, 0], 8.0)], ["core", "C06"], ctls=[[4.0, 12.0], [0.0, 8.0]]))
    a(entry("gasinj", two, [inj([0, 0, 0], 5.0, injected_phase="gas"), prod([1, 0, 0], 5.0)], ["core", "C06"], ctls=[[9.0, 2.0]]))
    a(entry("scaled", two, [prod([1, 0, 0], 6.0)], ["C06"], sim={"global_rate_scale": 0.5}, ctls=[[3.0]]))
    a(entry("choked", two, [inj([0, 0, 0], 400.0)], ["C06", "C01"], dts=(0.5, 10.0)))
    a(entry("drain", two, [prod([0, 0, 0], 300.0)], ["C06", "C01"], dts=(0.5, 10.0), sim={"max_saturation_change": 0.5, "max_substeps": 4}))
    a(entry("twins", two, [inj([0, 0, 0], 6.0), prod([0, 0, 0], 3.0)], ["C06", "core"]))
    a(entry("stone", quad, [inj([0, 0, 0], 6.0), prod([1, 1, 0], 6.0)], ["C06", "core"], fl=fluid(relative_permeability=STONE), dts=(1.0,), calls=1))
    # --- surface rates and limits
    for ph, v in (("oil", 4.0), ("water", 2.0), ("gas", 300.0), ("liquid", 6.0)):
        a(entry("surf_" + ph, two, [prod([0, 0, 0], v, rate_type="surface", surface_phase=ph)], ["C07", "C10"], pvt=PVT,
                ctls=[[v * 2]], dts=(0.5, 5.0), fl=fluid(rho_gas=0.9)))
    a(entry("surfinj", two, [inj([0, 0, 0], 4.0, rate_type="surface"), prod([1, 0, 0], 200.0, rate_type="surface", surface_phase="gas", limits={"wopr": 3.0, "liqr": 5.0})],
            ["C07", "C10"], pvt=PVT, fl=fluid(rho_gas=0.9), dts=(0.5, 5.0)))
    a(entry("gassurf", two, [inj([0, 0, 0], 600.0, rate_type="surface", injected_phase="gas"), prod([1, 0, 0], 9.0, limits={"wlpr": 1.0, "wgpr": 150.0})],
            ["C07", "C10"], pvt=PVT, fl=fluid(rho_gas=0.9), dts=(0.5, 5.0)))
    a(entry("nopvtlim", two, [prod([1, 0, 0], 9.0, limits={"wlpr": 1.0}, rate_type="surface")], ["C07"], dts=(0.5,)))
    # --- minimum bottom-hole pressure
    a(entry("bmin_on", two, [prod([0, 0, 0], 40.0, bhp_min=19.0)], ["C08"], dts=(0.5, 5.0), ctls=[[2.0]]))
    a(entry("bmin_off", two, [prod([0, 0, 0], 1.0, bhp_min=5.0)], ["C08"], dts=(0.5, 5.0), ctls=[[60.0]]))
    a(entry("bmin_hi", two, [prod([0, 0, 0], 5.0, bhp_min=23.0)], ["C08"], dts=(0.5,)))
    a(entry("bmin_surf", two, [prod([0, 0, 0], 30.0, bhp_min=19.0, rate_type="surface", surface_phase="oil")], ["C08", "C07"], pvt=PVT, fl=fluid(rho_gas=0.9), dts=(0.5, 5.0)))
    # --- pressure control, with and without cross-flow
    a(entry("bhp2", two, [bi([0, 0, 0], 24.0), bp([1, 0, 0], 17.0)], ["C09", "core"], ctls=[[21.0, 19.0], [19.0, 22.0]]))
    a(entry("bhpgas", two, [bi([0, 0, 0], 23.0, injected_phase="gas"), bp([1, 0, 0], 17.0)], ["C09", "C10"], pvt=PVT, fl=fluid(rho_gas=0.9), ctls=[[18.0, 23.0]], dts=(0.2, 2.0)))
    a(entry("bhpmix", quad, [bp([0, 0, 0], 18.0), inj([1, 1, 0], 5.0), prod([1, 0, 0], 3.0)], ["C09", "core"], dts=(1.0,), calls=1))
    a(entry("dryrv", two, [bp([0, 0, 0], 18.0), inj([1, 0, 0], 90.0, injected_phase="gas", rate_type="surface")], ["C10", "C09"],
            pvt={k: v for k, v in PVT.items() if k != "Rv_m3m3"}, fl=fluid(rho_gas=0.9), dts=(0.5, 2.0)))
    # --- step control alone: all outcome words
    for att in (1, 2, 3):
        for red in (2.0, 3.0, 1.5):
            if att == 3 and red == 3.0:
                continue
            a(entry(f"ctl_{att}_{red}", two, [prod([0, 0, 0], 1.0)], ["control"], phys=False, dts=(1.0,), calls=1 if att > 1 else 2,
                    sim={"max_time_step_attempts": att, "dt_reduction_factor": red}, dP=[1e5, -1e5]))
    return E


def for_tlc(es):
    return [{"id": e["id"], "cfg": doc(e["cfg"]), "pvt": [doc(e["pvt"])] if e["pvt"] else [], "ov":
             {k: [raw(x) for x in v] for k, v in e["ov"].items() if k in ("kx", "ky", "kz", "pv")} or {"none": 0},
             "P": [raw(x) for x in e["ov"]["P"]], "sw": [raw(x) for x in e["ov"]["sw"]], "sg": [raw(x) for x in e["ov"]["sg"]],
             "dts": [raw(x) for x in e["dts"]], "ctls": [[raw(x) for x in c] for c in e["ctls"]], "calls": e["calls"],
             "phys": e["phys"]} for e in es]


def replay(Run, e, behaviours, scratch):
    """Runs each printed behaviour on the real simulator; -> scenarios for Trace.tla."""
    out = []
    for k, h in enumerate(behaviours):
        r = Run(f"{e['id']}#{k}", e["cfg"], e["pvt"], e["ov"], scratch, phys=e["phys"])
        i = 0
        while i < len(h):
            if h[i]["k"] == "ctl":
                r.control(e["ctls"][h[i]["i"] - 1])
                i += 1
                continue
            dt = e["dts"][h[i]["i"] - 1]
            i += 1
            plan = []
            while i < len(h) and h[i]["k"] in ("fail", "ok"):
                plan.append(h[i]["k"] == "ok")
                i += 1
            if r.step(dt, plan) is None:
                break
        out.append(r.scenario())
    return out
