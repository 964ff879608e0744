"""C05, C25, C26: pairs of models whose runs must correspond (Pair.tla)."""
import copy
import json
import os

import numpy as np

import core
import gen
import lattice
import simdrv
import steps
import tlc
from enc import arr, doc, raw

MD = gen.MD
FIELDS = ("kx", "ky", "kz", "pv", "P", "sw", "sg")


def cellno(dims, i, j, k):
    return (i * dims[1] + j) * dims[2] + k


def position(w):
    return list(w["coordinates"]) if "coordinates" in w else [w["i"], w["j"], w["k"]]


def placed(w, pos):
    w = copy.deepcopy(w)
    if "coordinates" in w:
        w["coordinates"] = list(pos)
    else:
        w["i"], w["j"], w["k"] = pos
    return w


class Pair:
    """a, b: (cfg, table, ov); cells, wells: correspondence, from 0."""

    def __init__(self, kind, a, b, cells, wells):
        self.kind, self.a, self.b, self.cells, self.wells = kind, a, b, cells, wells

    def doc(self):
        return {"kind": self.kind, "cells": [[x + 1, y + 1] for x, y in self.cells], "wells": [[x + 1, y + 1] for x, y in self.wells]}


def symmetric(r, cfg, table, ov, mirror_x, mirror_y, swap, order=None):
    """Mirrored, transposed and renumbered."""
    dims = cfg["reservoir"]["dimensions"]
    nx, ny, nz = dims
    nd = [ny, nx, nz] if swap else [nx, ny, nz]

    def image(i, j, k):
        i, j = (nx - 1 - i if mirror_x else i), (ny - 1 - j if mirror_y else j)
        return (j, i, k) if swap else (i, j, k)
    cells = [(cellno(dims, i, j, k), cellno(nd, *image(i, j, k))) for i in range(nx) for j in range(ny) for k in range(nz)]
    c = copy.deepcopy(cfg)
    c["reservoir"]["dimensions"] = nd
    if swap:
        gs = c["reservoir"]["grid_size"]
        c["reservoir"]["grid_size"] = [gs[1], gs[0], gs[2]]
    order = order if order is not None else list(range(len(cfg["wells"])))
    c["wells"] = [placed(cfg["wells"][w], image(*position(cfg["wells"][w]))) for w in order]
    o = {}
    for key, v in ov.items():
        t = [0.0] * len(v)
        for x, y in cells:
            t[y] = v[x]
        o[{"kx": "ky", "ky": "kx"}.get(key, key) if swap else key] = t
    return Pair("symmetry", (cfg, table, ov), (c, table, o), cells, [(w, order.index(w)) for w in range(len(order))])


def filled(cfg, ov, n):
    """Overrides for every field, so that they can be edited per cell."""
    rc, f = cfg["reservoir"], cfg["fluid"]
    k = rc["permeability"] * MD
    gs = rc["grid_size"]
    full = {"kx": [k] * n, "ky": [k] * n, "kz": [k * rc.get("k_vertical_fraction", 0.1)] * n,
            "pv": [gs[0] * gs[1] * gs[2] * rc["porosity"]] * n, "P": [f["pressure"] * 1e6] * n, "sw": [f["s_w"]] * n, "sg": [f["s_g"]] * n}
    full.update({q: list(v) for q, v in ov.items()})
    return full


def fence(cfg, ov, axis, at):
    """No permeability along the axis in the cells with index `at`; wells there do not need an index."""
    dims = cfg["reservoir"]["dimensions"]
    key = ("kx", "ky", "kz")[axis]
    for i in range(dims[0]):
        for j in range(dims[1]):
            for k in range(dims[2]):
                if (i, j, k)[axis] == at:
                    ov[key][cellno(dims, i, j, k)] = 0.0
    for w in cfg["wells"]:
        if position(w)[axis] == at:
            w.pop("bhp_min", None)
            if "control" in w:
                w["control"] = {"type": "rate", "value": min(abs(w["control"]["value"]), 30.0)}
            else:
                w["control_type"], w["control_value"] = "rate", min(abs(w["control_value"]), 30.0)


def divided(r, cfg, table, ov, theme):
    """Two models that agree up to a wall and differ in anything behind it."""
    cfg = copy.deepcopy(cfg)
    dims = cfg["reservoir"]["dimensions"]
    n = int(np.prod(dims))
    ov = filled(cfg, ov, n)
    axis = r.choice([q for q in range(3) if dims[q] > 1])
    at = r.randrange(1, dims[axis])
    low = r.random() < .5               # the near side is the low or the high one
    wall = at if low else at - 1
    near = (lambda p: p[axis] < at) if low else (lambda p: p[axis] >= at)
    extra = r.choice([0, 0, 1, 2])      # more cells behind the wall
    d2 = list(dims)
    d2[axis] += extra
    shift = 0 if low else extra
    c2 = copy.deepcopy(cfg)
    c2["reservoir"]["dimensions"] = d2
    # a second, unrelated far side
    cx, _, ox, _ = gen.scenario(r, {**theme, "shapes": [tuple(d2)], "hetero": 1.0})
    o2 = filled(cx, ox, int(np.prod(d2)))
    cells = []
    for i in range(dims[0]):
        for j in range(dims[1]):
            for k in range(dims[2]):
                if near((i, j, k)):
                    q = [i, j, k]
                    q[axis] += shift
                    a, b = cellno(dims, i, j, k), cellno(d2, *q)
                    cells.append((a, b))
                    for key in FIELDS:
                        o2[key][b] = ov[key][a]
    mine = [w for w in range(len(cfg["wells"])) if near(position(cfg["wells"][w]))]
    far = [w for w in cx["wells"] if not (position(w)[axis] < at if low else position(w)[axis] >= at + shift)]
    slots = [("n", w) for w in mine] + [("f", w) for w in range(len(far))]
    r.shuffle(slots)
    wells, pairs = [], []
    for q, (s, w) in enumerate(slots):
        if s == "n":
            p = position(cfg["wells"][w])
            p[axis] += shift
            pairs.append((w, q))
            wells.append(placed(cfg["wells"][w], p))
        else:
            wells.append({**far[w], "name": f"F{q}"})
    c2["wells"] = wells
    fence(cfg, ov, axis, wall)
    fence(c2, o2, axis, wall + shift)
    for w, q in pairs:      # the wall may have changed a near well when it is on the near side's rim
        c2["wells"][q] = placed(cfg["wells"][w], position(c2["wells"][q]))
    # far-side cells without any permeability must not hold wells that need an index
    for c, o in ((cfg, ov), (c2, o2)):
        d = c["reservoir"]["dimensions"]
        for w in c["wells"]:
            x = cellno(d, *position(w))
            if o["kx"][x] == 0.0 or o["ky"][x] == 0.0:
                w.pop("bhp_min", None)
                if "control" in w:
                    w["control"]["type"] = "rate"
                else:
                    w["control_type"] = "rate"
    return Pair("barrier", (cfg, table, ov), (c2, table, o2), cells, sorted(pairs))


def solvers(r, cfg, table, ov):
    c = copy.deepcopy(cfg)
    s = c["simulation"]
    kind = r.choice(["amg", "amg", "amgdeep", "f64", "f32", "tight"])
    if kind.startswith("amg"):
        s["pressure_solver"] = "amg"
        s["amg"] = {"tol": r.choice([1e-6, 1e-8, 1e-10]), "max_cycles": r.choice([20, 60])}
        if kind == "amgdeep":
            s["amg"].update(coarsest_size=r.choice([1, 2, 4]), theta=r.choice([0.1, 0.25, 0.5]), max_levels=r.choice([2, 3, 10]))
    elif kind == "f64":
        s["pressure_float64"] = True
    elif kind == "f32":
        s["pressure_float64"] = False
        s["cg_tolerance"] = 1e-6
    else:
        s["cg_tolerance"] = 1e-12
    n = int(np.prod(cfg["reservoir"]["dimensions"]))
    return Pair("solver", (cfg, table, ov), (c, table, ov), [(x, x) for x in range(n)], [(w, w) for w in range(len(cfg["wells"]))])


def side(m):
    cfg, table, ov = m
    return {"cfg": doc(cfg), "pvt": [doc(table)] if table is not None else [],
            "ov": {k: arr(np.asarray(v, dtype=np.float32)) for k, v in ov.items() if k in ("kx", "ky", "kz", "pv")} or {"none": 0}}


def one_sub(run, n0):
    subs = [e for e in run.events[n0:] if e["k"] == "sub"]
    return len(subs) == 1 and not any(e["k"] == "fail" for e in run.events[n0:])


def record(sid, pair, plan, scratch):
    """plan: [(dt, control values of a or None)].  b starts every step from a's state (its own behind a wall)."""
    cfg, table, ov = pair.a
    ev = []
    try:
        A = simdrv.Run(sid + "a", cfg, table, ov, scratch)
        init = A.state()
        far = None
        ctl = [w.control_value for w in A.wm.get_wells()]
        for dt, c in plan:
            if c is not None:
                ctl = list(c)
                A.control(ctl)
            cb, tb, ob = pair.b
            ob = dict(ob)
            now = {"P": A.fluid.pressure, "sw": A.fluid.s_w, "sg": A.fluid.s_g}
            nb = int(np.prod(cb["reservoir"]["dimensions"]))
            for key, f in now.items():
                f = f.numpy().reshape(-1)
                x = np.zeros(nb, dtype=np.float32) if key not in ob and far is None else np.array((far or ob)[key], dtype=np.float32)
                for p, q in pair.cells:
                    x[q] = f[p]
                ob[key] = x
            B = simdrv.Run(sid + "b", cb, tb, ob, scratch)
            vb = [w.control_value for w in B.wm.get_wells()]
            for p, q in pair.wells:
                vb[q] = ctl[p]
            B.control(vb)
            na, nb_ = len(A.events), len(B.events)
            oka, okb = A.step(dt), B.step(dt)
            for run in (A, B):
                bad = [e for e in run.events if e["k"] == "raise"]
                if bad:
                    raise RuntimeError(bad[0]["what"])
            ev.append({"k": "pair", "dt": raw(dt), "v": [raw(x) for x in ctl], "oka": bool(oka) and one_sub(A, na),
                       "okb": bool(okb) and one_sub(B, nb_), "a": A.state(), "b": B.state()})
            far = {"P": B.fluid.pressure.numpy().reshape(-1), "sw": B.fluid.s_w.numpy().reshape(-1), "sg": B.fluid.s_g.numpy().reshape(-1)}
            if not oka:
                break
    except Exception as ex:
        ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
        init = {"P": []}
    return {"id": sid, "pair": pair.doc(), "a": side(pair.a), "b": side(pair.b), "init": init, "ev": ev}


TIGHT = {"f64": 1.0, "amg": 0.0, "cuts": 0.0, "dt": (-4, -0.3)}
BIG = [(4, 1, 1), (5, 1, 1), (3, 2, 1), (3, 3, 1), (2, 3, 1), (2, 2, 2), (1, 1, 4), (3, 2, 2), (2, 2, 3), (1, 4, 2), (1, 3, 1)]
THEMES = {"C05": {**TIGHT, "shapes": BIG, "hetero": 1.0, "nwells": [1, 2, 3, 4], "cap": .3},
          "C25": {**TIGHT, "shapes": BIG, "nwells": [0, 1, 2, 3], "f64": 0.5},
          "C26": {**TIGHT, "shapes": BIG + [(1, 1, 1), (2, 1, 1)], "nwells": [0, 1, 2, 3, 4, 4], "crowd": 0.5, "fill": 0.5}}


def make(r, prop, theme=None, base=None):
    theme = {**THEMES[prop], **(theme or {})}
    cfg, table, ov, st = base or gen.scenario(r, theme)
    if theme["f64"] == 1.0:
        cfg["simulation"].update(cg_tolerance=1e-9, cg_max_iter=3000)
    cfg["simulation"].pop("max_time_step_attempts", None)
    if prop == "C05":
        p = divided(r, cfg, table, ov, theme)
    elif prop == "C25":
        p = solvers(r, cfg, table, ov)
    else:
        order = list(range(len(cfg["wells"])))
        if r.random() < .6:
            r.shuffle(order)
        flags = r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 1, 0), (0, 0, 0), (1, 0, 1)])
        p = symmetric(r, cfg, table, ov, *flags, order)
    return p, [dt for dt, _ in st]


def small(r, prop):
    """Small pairs for exhaustive exploration."""
    shape = r.choice({"C05": [(2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 1, 1), (2, 2, 1)], "C25": [(2, 1, 1), (2, 2, 1), (1, 1, 2)],
                      "C26": [(2, 1, 1), (1, 2, 1), (2, 2, 1), (2, 1, 2), (3, 1, 1)]}[prop])
    return make(r, prop, {"shapes": [shape], "nwells": [1, 2], "pfield": 1.0, "f64": 1.0})


def pair_check(ctx):
    prop = ctx.prop
    lat = []
    for i in range(ctx.n(12, 60)):
        r = ctx.rng("lattice", i)
        p, dts = small(r, prop)
        dts = sorted({dts[0], dts[0] * 7})
        base = [w["control"]["value"] if "control" in w else w["control_value"] for w in p.a[0]["wells"]]
        ctls = [base, [x * f for x, f in zip(base, [0.5, 1.4, 0.0])]]
        lat.append((f"p{i}", p, dts, ctls))
    path = os.path.join(ctx.scratch, "lattice.json")

    def state(m):
        cfg, _, ov = m
        full = filled(cfg, ov, int(np.prod(cfg["reservoir"]["dimensions"])))
        return {q: arr(np.asarray(full[q], dtype=np.float32)) for q in ("P", "sw", "sg")}

    def other(p, c):
        cb = [w["control"]["value"] if "control" in w else w["control_value"] for w in p.b[0]["wells"]]
        for x, y in p.wells:
            cb[y] = c[x]
        return [raw(x) for x in cb]
    with open(path, "w") as f:
        json.dump([{"id": i, **p.doc(), "a": {**side(p.a), **state(p.a)}, "b": {**side(p.b), **state(p.b)},
                    "dts": [raw(x) for x in dts], "ctls": [[[raw(x) for x in c], other(p, c)] for c in ctls]} for i, p, dts, ctls in lat], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCPair", env={"LATTICE": path, "PROP": prop})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    beh = sorted({(o["cfg"], json.dumps(o["hist"])) for o in objs})
    chosen = beh if len(beh) <= ctx.n(160, 4000) else ctx.rng("behaviours").sample(beh, ctx.n(160, 4000))
    by = {i: (p, dts, ctls) for i, p, dts, ctls in lat}
    scratch = ctx.sub("pvt")

    def replay(q):
        p, dts, ctls = by[chosen[q][0]]
        plan, c = [], None
        for h in json.loads(chosen[q][1]):
            if h["k"] == "ctl":
                c = ctls[h["i"] - 1]
            else:
                plan.append((dts[h["i"] - 1], c))
                c = None
        return record(f"b{q}", p, plan, scratch)
    scen = core.pmap(replay, len(chosen))
    ctx.count(behaviours_generated=len(beh), behaviours_replayed=len(chosen))
    ctx.sample({"behaviour": chosen[0]})

    def one(i):
        r = ctx.rng("pair", i)
        p, dts = make(r, prop)
        base = [w["control"]["value"] if "control" in w else w["control_value"] for w in p.a[0]["wells"]]
        plan = [(dt, [x * r.uniform(.5, 1.5) for x in base] if r.random() < .3 else None) for dt in dts]
        return record(f"r{i}", p, plan, scratch)
    scen += core.pmap(one, ctx.n(700, 8000))
    ev = [e for s in scen for e in s["ev"]]
    ctx.count(paired_steps=sum(e["k"] == "pair" for e in ev), both_converged=sum(e["k"] == "pair" and e["oka"] and e["okb"] for e in ev))
    for i in range(0, len(scen), 700):
        steps.judge(ctx, scen[i:i + 700], spec="PairTrace", tag=f"p{i}_")
