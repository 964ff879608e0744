"""C27: simulators side by side in one process (Weave.tla)."""
import copy
import hashlib
import json
import os
import random

import numpy as np
import torch

import core
import gen
import simdrv
import steps
import tlc

SHAPES = [(2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 3, 1), (1, 1, 3), (2, 2, 2), (3, 2, 1), (2, 1, 2)]
THEME = {"amg": 0.0, "cuts": 0.0, "steps": 4, "hetero": 0.5, "dt": (-3, 0.5)}


class Machine:
    """What a machine is built from, and its operations after that."""

    def __init__(self, cfg, table, ov, ops, pvt=None, share=False):
        self.cfg, self.table, self.ov, self.ops, self.pvt, self.share = cfg, table, ov, ops, pvt, share


def operations(r, cfg, st, n):
    ops = []
    base = [w["control"]["value"] if "control" in w else w["control_value"] for w in cfg["wells"]]
    for dt, plan in (st * n)[:n]:
        k = r.choice(["step", "step", "ctl", "cut", "fail", "lim"])
        ops.append({"dt": dt * r.choice([1, 1, .5, 2]), "plan": {"cut": [False], "fail": [False] * 60}.get(k),
                    "ctl": [x * r.uniform(.6, 1.4) for x in base] if k == "ctl" else None,
                    "lim": [r.randrange(len(base)), r.choice(["wopr", "wlpr", "wgpr"]), 10 ** r.uniform(-3, 1)] if k == "lim" and base else None})
    return ops


def fi(cfg):
    """A closed model at rest: the fully implicit scheme accepts it."""
    cfg["simulation"]["solver_type"] = "fully_implicit"


def family(r, n, ops):
    """n machines that have much in common: the document, the size, the path of the PVT table, the grid object."""
    first = gen.scenario(r, {**THEME, "shapes": [r.choice(SHAPES)]})
    out = []
    for i in range(n):
        kind = r.choice(["same", "same", "shape", "shape", "free", "rock", "table"]) if i else "first"
        cfg, table, ov, st = first
        share = False
        if kind == "shape":         # the same size, everything else different
            cfg, table, ov, st = gen.scenario(r, {**THEME, "shapes": [tuple(first[0]["reservoir"]["dimensions"])]})
        elif kind == "free":
            cfg, table, ov, st = gen.scenario(r, {**THEME, "shapes": SHAPES})
        elif kind == "rock":        # another fluid and other wells on the same grid object
            cfg, table, ov, st = gen.scenario(r, {**THEME, "shapes": [tuple(first[0]["reservoir"]["dimensions"])]})
            cfg["reservoir"] = first[0]["reservoir"]
            ov = {k: v for k, v in ov.items() if k in ("P", "sw", "sg")}
            ov.update({k: v for k, v in first[2].items() if k in ("kx", "ky", "kz", "pv")})
            for w in cfg["wells"]:      # may now sit in tight rock
                w.pop("bhp_min", None)
                (w["control"] if "control" in w else w)["type" if "control" in w else "control_type"] = "rate"
            share = True
        elif kind == "table" and table is not None:   # the same model with another table
            table = gen.pvt_table(r)
        elif kind == "same":
            st = [(dt * 2, p) for dt, p in st]
        out.append(Machine(cfg, table, ov, operations(r, cfg, st, ops - 1), share=share))
    return out


def fingerprint(machines):
    return [hashlib.sha1(json.dumps([m.cfg, m.table, {k: [float(x) for x in v] for k, v in m.ov.items()}], sort_keys=True).encode()).hexdigest() for m in machines]


class World:
    def __init__(self, machines, scratch):
        self.machines, self.scratch = machines, scratch
        self.run = [None] * len(machines)
        self.done = [0] * len(machines)
        self.oks = [True] * len(machines)
        os.makedirs(scratch, exist_ok=True)

    def build(self, i, fields=None):
        m = self.machines[i]
        if m.table is not None:      # every machine finds its table under the same name
            path = os.path.join(self.scratch, "table.json")
            with open(path, "w") as f:
                text = json.dumps(m.table)
                f.write(text + " " * (-len(text) % 8192))
            m.cfg["fluid"]["pvt_path"] = path
        ov = dict(m.ov)
        if fields:
            ov.update(fields)
        res = next((x.res for x in self.run if x is not None), None) if m.share and i and self.machines[0].cfg["reservoir"] is m.cfg["reservoir"] \
            and self.run[0] is not None else None
        res = self.run[0].res if res is not None else None
        try:
            self.run[i] = simdrv.Run(f"m{i}", m.cfg, None, ov, self.scratch, res=res)
        finally:
            m.cfg["fluid"].pop("pvt_path", None)
        return True

    def go(self, i):
        d = self.done[i]
        self.done[i] += 1
        if d == 0:
            return self.build(i)
        op = self.machines[i].ops[d - 1]
        run = self.run[i]
        if op["ctl"] is not None:
            run.control(op["ctl"])
        if op["lim"] is not None:    # one more limit for one well
            w, k, v = op["lim"]
            well = run.wm.get_wells()[w]
            if self.machines[i].cfg["wells"][w].get("limits"):
                well.limits = {**well.limits, k: v}
            else:                    # a well without limits has a dictionary of its own
                well.limits[k] = v
        n0 = len(run.events)
        ok = run.step(op["dt"], op["plan"])
        bad = [e for e in run.events[n0:] if e["k"] == "raise"]
        if bad:
            raise RuntimeError(bad[0]["what"])
        return bool(ok)

    def restart(self, i):
        f = self.run[i].fluid
        vals = [w.control_value for w in self.run[i].wm.get_wells()]
        lims = [dict(w.limits) for w in self.run[i].wm.get_wells()]
        self.build(i, {"P": f.pressure.numpy().copy(), "sw": f.s_w.numpy().copy(), "sg": f.s_g.numpy().copy()})
        self.run[i].control(vals)
        for w, lim in zip(self.run[i].wm.get_wells(), lims):
            w.limits = lim

    def look(self, i, r):
        x = self.run[i]
        f, n = x.fluid, int(np.prod(x.res.dimensions))
        import inspect
        with simdrv.quiet():
            for name, fn in inspect.getmembers(f, callable):
                if name.startswith("_"):
                    continue
                need = [p for p in inspect.signature(fn).parameters.values() if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]
                args = {"s_w": f.s_w, "sw": f.s_w, "s_g": f.s_g, "sg": f.s_g, "pressure": f.pressure, "p": f.pressure, "P": f.pressure}
                if name.startswith(("calc", "get", "rho", "mu")) or name in ("rho_w", "rho_o", "rho_g"):
                    try:
                        fn(*[args.get(p.name, f.pressure) for p in need])
                    except Exception:
                        pass
            for w in x.wm.get_wells():
                str(vars(w))
            out = os.path.join(self.scratch, f"out{i}")
            os.makedirs(out, exist_ok=True)
            x.sim.sim_params["save_final_full_npz"] = False
            try:
                x.sim._save_final_report(out, True)
            except Exception:
                pass
            x.sim.sim_params.pop("save_final_full_npz", None)
            try:
                from plotting.plotter import Plotter
                if r.random() < .15:
                    Plotter(x.res).save_plots(f.pressure.numpy(), f.s_w.numpy(), os.path.join(out, "p.png"), "x", f.s_g.numpy())
            except Exception:
                pass

    def noise(self, kind, r):
        if kind == "rng":
            torch.manual_seed(r.randrange(10 ** 6))
            np.random.seed(r.randrange(10 ** 6))
            random.seed(r.random())
            torch.rand(5)
        elif kind == "other":        # an unrelated simulator, also with multigrid
            cfg, table, ov, st = gen.scenario(r, {**THEME, "shapes": [tuple(self.machines[0].cfg["reservoir"]["dimensions"])], "amg": .5, "pvt": .7})
            x = simdrv.Run("o", cfg, table, ov, self.scratch)
            x.step(st[0][0], [False] if r.random() < .3 else None)
        else:                        # habits of other code in the process
            torch.set_grad_enabled(True)
            np.set_printoptions(precision=3)
            np.seterr(all="ignore")

    def states(self):
        return [[x.state()] if x is not None else [] for x in self.run]


def solo(machines, scratch):
    """[[state, ok] after each operation], one process per machine."""
    def alone(i):
        w = World(machines, os.path.join(scratch, f"solo{i}"))
        out = []
        try:
            for _ in range(len(machines[i].ops) + 1):
                ok = w.go(i)
                out.append({"ok": ok, "st": w.states()[i][0]})
        except Exception as ex:
            return f"{type(ex).__name__}: {ex}"
        return out
    return alone


def record(sid, machines, solos, hist, seed, scratch):
    r = random.Random(seed)
    w = World(machines, scratch)
    docs = fingerprint(machines)
    ev = []
    try:
        for h in hist:
            e = {"k": h["k"], "m": h["m"], "ok": True}
            if h["k"] == "go":
                e["ok"] = w.go(h["m"] - 1)
            elif h["k"] == "restart":
                w.restart(h["m"] - 1)
            elif h["k"] == "look":
                w.look(h["m"] - 1, r)
            else:
                w.noise(h["k"], r)
            e.update(st=w.states(), docs=fingerprint(machines))
            ev.append(e)
    except Exception as ex:
        ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
    return {"id": sid, "solo": solos, "docs": docs, "ev": ev}


def weave(r, n, ops, extra):
    """A random interleaving for Weave."""
    done = [0] * n
    since = [0] * n
    hist = []
    while min(done) < ops:
        ready = [i for i in range(n) if done[i] < ops]
        k = r.random()
        if k < extra:
            a = r.choice(["restart", "look", "rng", "other", "modes"])
            if a in ("restart", "look"):
                c = [i for i in range(n) if done[i] > (since[i] if a == "restart" else 0)]
                if not c:
                    continue
                i = r.choice(c)
                if a == "restart":
                    since[i] = done[i]
                hist.append({"k": a, "m": i + 1})
            else:
                hist.append({"k": a, "m": 0})
            continue
        i = r.choice(ready)
        done[i] += 1
        hist.append({"k": "go", "m": i + 1})
    return hist


def weave_check(ctx):
    import simulator.simulation, simulator.reservoir, simulator.well, simulator.fluid, simulator.step_trace  # noqa: once, for all processes
    import plotting.plotter  # noqa
    ops = ctx.n(3, 3)
    extra = ctx.n(1, 2)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCWeave", env={"OPS": str(ops), "EXTRA": str(extra)})
    if bad:
        raise tlc.Machinery("the specification itself breaks C27: " + bad)
    ctx.states += dist
    ctx.transitions += trans
    beh = sorted(json.dumps(o["hist"]) for o in objs)
    chosen = beh if len(beh) <= ctx.n(500, 8000) else ctx.rng("behaviours").sample(beh, ctx.n(500, 8000))
    ctx.count(behaviours_generated=len(beh), behaviours_replayed=len(chosen))
    ctx.sample({"behaviour": json.loads(chosen[0])})
    groups = [(family(ctx.rng("family", i), 2, ops), None) for i in range(ctx.n(60, 300))]
    groups += [(family(ctx.rng("large", i), ctx.rng("ln", i).choice([2, 3, 4]), 5), 0.35) for i in range(ctx.n(80, 800))]
    flat = [(g, i) for g, (ms, _) in enumerate(groups) for i in range(len(ms))]
    scratch = ctx.sub("weave")
    alone = core.pmap(lambda q: solo(groups[flat[q][0]][0], os.path.join(scratch, f"g{flat[q][0]}"))(flat[q][1]), len(flat), fresh=True)
    solos = {}
    for (g, i), s in zip(flat, alone):
        solos.setdefault(g, []).append(s)
    for g in [g for g, s in solos.items() if any(isinstance(x, str) for x in s)]:
        x = next(x for x in solos[g] if isinstance(x, str))
        ctx.fail("a machine on its own raised " + x)
        del solos[g]
    jobs = []
    small = [g for g in solos if groups[g][1] is None]
    for q, h in enumerate(chosen):
        if small:
            jobs.append((f"b{q}", small[q % len(small)], json.loads(h)))
    for g in solos:
        ms, x = groups[g]
        if x is not None:
            for k in range(ctx.n(2, 4)):
                jobs.append((f"r{g}_{k}", g, weave(ctx.rng("weave", g, k), len(ms), 5, x)))

    def one(q):
        sid, g, h = jobs[q]
        return record(sid, groups[g][0], solos[g], h, f"{ctx.seed}/{sid}", os.path.join(scratch, sid))
    scen = core.pmap(one, len(jobs), fresh=True)
    ctx.count(machines=len(flat), events=sum(len(s["ev"]) for s in scen))
    for i in range(0, len(scen), 600):
        steps.judge(ctx, scen[i:i + 600], spec="WeaveTrace", tag=f"w{i}_")
