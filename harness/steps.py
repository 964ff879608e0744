"""The step properties: exploration of OilSim, replay of its behaviours, random recorded runs."""
import json
import os

import core
import gen
import lattice
import simdrv
import tlc


def describe(o):
    return (f"{o['clause']} (scenario {o['fail']}, event {o['ev']}, at {o['at']}): "
            f"specification {str(o['want'])[:120]}, code {str(o['got'])[:120]}")


def judge(ctx, scenarios, prop=None, spec="Trace", tag="t"):
    fails, states, trans = tlc.validate(ctx.scratch, scenarios, prop or ctx.prop, spec=spec, tag=tag)
    ctx.states += states
    ctx.transitions += trans
    ctx.traces += len(scenarios)
    by_id = {s["id"]: s for s in scenarios}
    for o in sorted(fails, key=lambda o: (o["fail"], o["ev"])):
        s = by_id[o["fail"]]
        ctx.fail(describe(o), key=s["id"] if s["id"].startswith("implicit-") else None, detail={"clause": o, "scenario": s if len(ctx.violations) < 3 else o["fail"]})
    return fails


def explore(ctx, tags, replay=60, workers=None):
    """MCOilSim on the configurations with one of the tags, then its behaviours on the real code."""
    es = [e for e in lattice.entries() if set(tags) & set(e["tags"])]
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump(lattice.for_tlc(es), f)
    objs, dist, gen_, bad = tlc.check(ctx.scratch, "MCOilSim",
                                      env={"LATTICE": path, "PROP": ctx.prop, "PRINT": "1"},
                                      cfg="MCOilSimLive.cfg" if ctx.thorough else None)
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += gen_
    beh = {}
    for o in objs:
        beh.setdefault(o["cfg"], []).append(o["hist"])
    for v in beh.values():
        v.sort(key=json.dumps)
    total = sum(len(v) for v in beh.values())
    r = ctx.rng("behaviours")
    chosen = [(c, h) for c in sorted(beh) for h in beh[c]]
    limit = ctx.n(replay, 10 ** 6)
    if len(chosen) > limit:      # at least one per configuration, the rest at random
        first = [(c, r.choice(beh[c])) for c in sorted(beh)]
        chosen = first + r.sample(chosen, max(0, limit - len(first)))
    scen = []
    for e in es:
        hs = [h for c, h in chosen if c == e["id"]]
        scen += lattice.replay(simdrv.Run, e, hs, ctx.sub("pvt"))
    ctx.count(behaviours_generated=total, behaviours_replayed=len(scen), configurations=len(es))
    if scen:
        ctx.sample({"behaviour": chosen[0][0], "choices": [h["k"] for h in chosen[0][1]]})
    return scen


def record(ctx, themes, n):
    """n random runs of the real simulator, over the given themes."""
    pvt = ctx.sub("pvt")

    def one(i):
        r = ctx.rng("run", i)
        cfg, tab, ov, steps = gen.scenario(r, themes[i % len(themes)])
        run = simdrv.Run(f"r{i}", cfg, tab, ov, pvt)
        for dt, plan in steps:
            if run.step(dt, plan) is None:
                break
            if r.random() < 0.2:
                run.control([w.control_value * r.uniform(.5, 1.5) for w in run.wm.get_wells()])
            if r.random() < 0.12:
                sw, sg = gen.saturations(r, run.fluid.s_w.numel(), cfg["fluid"], themes[i % len(themes)])
                P = [p + r.uniform(-1e6, 1e6) for p in run.fluid.pressure.reshape(-1).tolist()]
                if r.random() < 0.5:                 # only one of the fields is new
                    sw, sg = r.choice([(sw, [0.0] * len(sg)), (run.fluid.s_w.reshape(-1).tolist(), [0.0] * len(sg))])
                run.place(P, sw, sg, r.random() < 0.4)
        return run.scenario(), {"cfg": cfg, "steps": steps}

    both = core.pmap(one, n)
    for _, s in both[:2]:
        ctx.sample(s)
    out = [s for s, _ in both]
    ev = [e for s in out for e in s["ev"]]
    ctx.count(recorded_runs=n, substeps=sum(e["k"] == "sub" for e in ev), failed_attempts=sum(e["k"] == "fail" for e in ev),
              failed_steps=sum(e["k"] == "ret" and not e["ok"] for e in ev))
    return out


# what to emphasise in the random runs of each property, and which configurations to explore
FREE = {"sats": ["mid"], "dt": (-4, -1.5), "cap": 0.4, "cuts": 0.05}
PLAN = {
    "C01": (["C01", "core"], [{"sats": ["edge", "wide"], "dt": (-2, 2)}, {"dt": (-1, 2.5), "rate": 4.0}, {}]),
    "C02": (["core"], [FREE, {**FREE, "nwells": [0]}, {**FREE, "wells": ["bhpp", "bhpi", "prod"]}, {}]),
    "C03": (["core"], [{}, {"sats": ["mid", "wide"], "cap": 0.7, "shapes": [(1, 1, 3), (2, 2, 2), (3, 2, 2), (1, 1, 2), (2, 2, 3), (2, 3, 3)]}, FREE]),
    "C04": (["core"], [{"f64": 1.0}, {"f64": 1.0, "cap": 0.7, "shapes": [(1, 1, 3), (2, 2, 2), (1, 1, 2), (3, 2, 1), (2, 1, 4), (2, 2, 3)]}, {"f64": 1.0, "pvt": 1.0}, {}]),
    "C06": (["C06"], [{"wells": ["inj", "prod"], "nwells": [1, 2, 3], "f64": 1.0}, {"wells": ["inj", "prod"], "nwells": [1, 2], "dt": (-3, 0), "sats": ["mid"], "f64": 1.0},
                      {"wells": ["inj", "prod"], "nwells": [2], "pvt": 0.0}]),
    "C07": (["C07"], [{"wells": ["surf", "surfi", "prod"], "nwells": [1, 2, 3], "pvt": 1.0, "limits": 0.5},
                      {"wells": ["surf"], "nwells": [1, 2], "pvt": 1.0, "limits": 0.0, "dt": (-3, 0), "sats": ["mid"]},
                      {"wells": ["surfi", "surf"], "nwells": [1, 2], "pvt": 0.7, "limits": 0.3}]),
    "C08": (["C08"], [{"wells": ["bmin"], "nwells": [1, 2], "f64": 1.0}, {"wells": ["bmin"], "nwells": [1], "dt": (-3, 0), "sats": ["mid"], "f64": 1.0},
                      {"wells": ["bmin", "bhpi", "surf"], "nwells": [2, 3], "pvt": 1.0}]),
    "C09": (["C09"], [{"wells": ["bhpi", "bhpp"], "nwells": [1, 2, 3], "f64": 1.0}, {"wells": ["bhpi", "bhpp"], "nwells": [1, 2], "dt": (-4, -1), "sats": ["mid"], "f64": 1.0}]),
    "C10": (["C10"], [{"pvt": 1.0, "nwells": [1, 2, 3]}, {"pvt": 1.0, "wells": ["bhpi", "bhpp", "inj"], "nwells": [1, 2], "sats": ["mid"], "dt": (-3, 0)},
                      {"pvt": 1.0, "wells": ["surf", "bmin", "surfi"], "nwells": [1, 2]}, {"pvt": 0.0}]),
    "C11": (["core"], [{}, FREE, {"pvt": 1.0}]),
}


def step_check(ctx):
    tags, themes = PLAN[ctx.prop]
    scen = explore(ctx, tags, replay=200)
    scen += record(ctx, themes, ctx.n(1400, 14000))
    scen += shipped(ctx)
    if ctx.prop in ("C04", "C06"):
        scen += implicit_fixed(ctx)
    if ctx.prop == "C01":
        scen += implicit(ctx, ctx.n(120, 1500))
    if ctx.thorough:
        for i in range(0, len(scen), 1600):
            judge(ctx, scen[i:i + 1600], tag=f"t{i}_")
    else:
        judge(ctx, scen)


def control_check(ctx):
    """C12, C13: the length of attempts, what a call returns and leaves behind."""
    scen = explore(ctx, ["control", "core", "C07"], replay=250)
    themes = [{"cuts": 1.0, "steps": 3}, {"cuts": 0.6, "pvt": 1.0, "nwells": [1, 2]}]
    scen += record(ctx, themes, ctx.n(1400, 14000))
    scen += natural(ctx, ctx.n(150, 1500))
    scen += implicit(ctx, ctx.n(160, 2000))
    for i in range(0, len(scen), 2000):
        judge(ctx, scen[i:i + 2000], tag=f"t{i}_")


def implicit(ctx, n):
    """The fully implicit solver (models without gas), with and without forced failures."""
    pvt = ctx.sub("pvt")

    def one(i):
        r = ctx.rng("implicit", i)
        kind = r.choice(["rest", "rest", "wells", "disturbed"])
        cfg, tab, ov, steps = gen.scenario(r, {
            "shapes": [(1, 1, 1), (2, 1, 1), (2, 2, 1), (3, 1, 1), (1, 2, 1), (3, 2, 1), (1, 1, 2), (2, 2, 2)], "cuts": r.choice([0.0, 0.4, 0.8]), "pvt": 0.2,
            "pfield": 1.0 if kind == "disturbed" else 0.0, "nwells": [1, 2] if kind == "wells" else [0], "f64": 0.0, "amg": 0.0,
            "sats": ["uniform", "mid"] if kind == "rest" else ["mid"], "steps": r.choice([1, 2, 3])})
        cfg["fluid"]["s_g"] = 0.0
        if "sg" in ov:
            ov["sg"] = [0.0] * len(ov["sg"])
        cfg["simulation"]["solver_type"] = "fully_implicit"
        run = simdrv.Run(f"fi{i}", cfg, tab, ov, pvt, phys=ctx.prop == "C01")
        for dt, plan in steps:
            if run.step(dt, plan) is None:
                break
        return run.scenario()

    out = core.pmap(one, n)
    ev = [e for s in out for e in s["ev"]]
    ctx.count(implicit_runs=n, implicit_substeps=sum(e["k"] == "sub" for e in ev), implicit_failures=sum(e["k"] == "fail" for e in ev),
              implicit_raises=sum(e["k"] == "raise" for e in ev))
    return out


def shipped(ctx):
    """The configuration documents of the repository, cut down to at most 5 x 5 x 2 cells, under IMPES."""
    import glob
    pvt = ctx.sub("pvt")
    files = sorted(glob.glob(os.path.join(simdrv.REPO, "configs", "*.json")))

    def one(i):
        with open(files[i]) as f:
            cfg = json.load(f)
        r = ctx.rng("shipped", i)
        old = cfg["reservoir"]["dimensions"]
        dims = [min(a, b) for a, b in zip(old, r.choice([(5, 5, 2), (4, 5, 2), (3, 4, 2)]))]
        cfg["reservoir"]["dimensions"] = dims
        wells = []
        for w in cfg["wells"]:
            pos = [int(w["coordinates"][a] if "coordinates" in w else w[q]) % dims[a] for a, q in enumerate("ijk")]
            w = {k: v for k, v in w.items() if k not in ("i", "j", "k", "coordinates")}
            if len(wells) < 6:
                wells.append({**w, "coordinates": pos})
        sim = {k: v for k, v in cfg["simulation"].items() if k != "use_cuda"}
        dt = sim["time_step_days"] * 86400.0
        cfg = {"reservoir": cfg["reservoir"], "fluid": dict(cfg["fluid"]), "wells": wells, "simulation": {**sim, "solver_type": "impes"}}
        tab = None
        path = cfg["fluid"].pop("pvt_path", None)
        if path:
            with open(os.path.join(simdrv.REPO, path)) as f:
                tab = json.load(f)
            tab = {k: v for k, v in tab.items() if isinstance(v, list)}
        run = simdrv.Run("shipped-" + os.path.basename(files[i])[:-5], cfg, tab, {}, pvt)
        for k in range(3):
            if run.step(dt * r.choice([1.0, 0.5, 2.0]), [False] if r.random() < 0.2 else None) is None:
                break
        return run.scenario()

    out = core.pmap(one, len(files))
    ctx.count(shipped_configurations=len(out))
    return out


def implicit_fixed(ctx):
    """Two fixed models under the fully implicit solver, whose physics is known to be wrong (known-findings.json)."""
    rp = {"model": "corey", "nw": 2, "no": 2, "sw_cr": 0.2, "so_r": 0.2}
    out = []
    for sid, P, wells in (("implicit-flow", [20e6, 20.1e6], []),
                          ("implicit-injector", [20e6, 20e6], [{"name": "I", "type": "injector", "i": 0, "j": 0, "k": 0, "radius": 0.1,
                                                                "control_type": "rate", "control_value": 20.0}])):
        if sid != {"C04": "implicit-flow", "C06": "implicit-injector"}[ctx.prop]:
            continue
        cfg = {"reservoir": {"dimensions": [2, 1, 1], "grid_size": [10.0, 10.0, 5.0], "porosity": 0.2, "permeability": 100.0, "k_vertical_fraction": 0.1},
               "fluid": {"pressure": 20.0, "s_w": 0.3, "s_g": 0.0, "mu_oil": 2.0, "mu_water": 0.5, "rho_oil": 850.0, "rho_water": 1000.0,
                         "c_oil": 1e-3, "c_water": 4e-4, "c_rock": 1e-4, "relative_permeability": rp},
               "wells": wells, "simulation": {"solver_type": "fully_implicit"}}
        run = simdrv.Run(sid, cfg, None, {"P": P, "sw": [0.4, 0.4], "sg": [0.0, 0.0]}, ctx.sub("pvt"))
        run.step(86400.0)
        out.append(run.scenario())
    return out


def natural(ctx, n):
    """Runs whose solver really does not converge (too few iterations), without forced outcomes."""
    pvt = ctx.sub("pvt")

    def one(i):
        r = ctx.rng("natural", i)
        cfg, tab, ov, steps = gen.scenario(r, {"shapes": [(3, 2, 1), (2, 2, 2), (3, 3, 2)], "cuts": 0.0, "amg": 0.2})
        cfg["simulation"]["cg_max_iter"] = r.choice([0, 1, 2, 3])
        cfg["simulation"]["cg_tolerance"] = r.choice([1e-6, 1e-9, 1e-12])
        run = simdrv.Run(f"n{i}", cfg, tab, ov, pvt, phys=False)
        for dt, _ in steps:
            if run.step(dt, None) is None:
                break
        return run.scenario()

    out = core.pmap(one, n)
    ev = [e for s in out for e in s["ev"]]
    ctx.count(natural_failed_attempts=sum(e["k"] == "fail" for e in ev), natural_failed_steps=sum(e["k"] == "ret" and not e["ok"] for e in ev))
    return out
