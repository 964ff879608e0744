"""C16-C19: fluid functions.  MCFluid walks a grid for a family of fluids; the real functions are
evaluated at every state of it and at random fluids, fields and arguments; FluidTrace judges."""
import json
import os

import numpy as np
import torch

import gen
import simdrv
import steps
import tlc
from enc import arr, doc, raw


class Rec:
    """A real Fluid (or PVT table) and the record of what was asked and answered."""

    def __init__(self, sid, fluid_cfg, table, dims, scratch):
        from simulator.fluid import Fluid
        from simulator.reservoir import Reservoir
        self.sid, self.cfg, self.table, self.dims = sid, fluid_cfg, table, tuple(dims)
        fc = dict(fluid_cfg)
        if table is not None:
            fc["pvt_path"] = simdrv.pvt_file(table, scratch)
        with simdrv.quiet():
            self.fl = Fluid(fc, Reservoir({"dimensions": list(dims)}, device=simdrv.DEV), device=simdrv.DEV)
        self.ev, self.init, self.kept = [], self.fields(), {}

    def fields(self):
        return {"p": arr(self.fl.pressure), "sw": arr(self.fl.s_w), "sg": arr(self.fl.s_g)}

    def t(self, v):
        return simdrv.f32(v, self.dims)

    def arg(self, role, v):
        """An argument and a copy of it; now and then the very object passed before, with new values in it."""
        self.turn = getattr(self, "turn", 0) + 1
        a = self.t(v)
        if self.turn % 3 == 0 and role in self.kept:
            self.kept[role].copy_(a)
            a = self.kept[role]
        self.kept[role] = a
        return a, a.clone()

    def set(self, p, sw, sg, how="new"):
        """new: three new fields; place: new values in the same objects; some: objects whose values stay are kept."""
        fl = self.fl
        for name, v in (("pressure", p), ("s_w", sw), ("s_g", sg)):
            v = self.t(v)
            if how == "place":
                getattr(fl, name).copy_(v)
            elif how == "new" or not torch.equal(v, getattr(fl, name)):
                setattr(fl, name, v)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        self.ev.append({"k": "set", "st": self.fields()})

    def ask(self, k, answer, **more):
        try:
            with simdrv.quiet():
                r = answer()
        except Exception as ex:
            self.ev.append({"k": "raise", "what": f"{k}: {type(ex).__name__}: {ex}"})
            return
        n = int(np.prod(self.dims))
        out = {}
        shapes = {tuple(v.shape) for v in r.values() if hasattr(v, "shape") and v.ndim}
        if len(shapes) > 1:
            self.ev.append({"k": "raise", "what": f"{k}: answers of shapes {sorted(shapes)}"})
            return
        for key, v in r.items():
            a = v.detach().numpy().astype(float) if torch.is_tensor(v) else np.asarray(v, dtype=float)
            # one number stands for the whole field
            out[key] = [raw(x) for x in (np.broadcast_to(a, (n,)) if a.ndim == 0 else a.reshape(-1))]
        self.ev.append({"k": k, "r": out, "after": self.fields(), **more})

    def kr(self, sw, sg, how):
        fl, (a, a0), (b, b0) = self.fl, self.arg("sw", sw), self.arg("sg", sg)
        if how == "cur":
            a, b = fl.s_w, fl.s_g
            a0, b0 = a.clone(), b.clone()

        def f():
            if how == "cur":
                o, w, g = fl.get_rel_perms(fl.s_w)
            elif how == "pair":
                o, w, g = fl.get_rel_perms(a, b)
            else:
                o, w, g = fl.calc_oil_kr(a, b), fl.calc_water_kr(a), fl.calc_gas_kr(b)
            return {"sw": a0, "sg": b0, "krw": w, "kro": o, "krg": g}
        self.ask("kr", f, cur=how == "cur")

    def dkr(self, sw, sg):
        fl, (a, a0), (b, b0) = self.fl, self.arg("sw", sw), self.arg("sg", sg)

        def f():
            o2, w2 = fl.get_rel_perms_derivatives(a)
            return {"sw": a0, "sg": b0, "dkrw": fl.calc_dkrw_dsw(a), "dkro": fl.calc_dkro_dsw(a),
                    "dkrg": fl.calc_dkrg_dsg(b), "dkrw2": w2, "dkro2": o2}
        self.ask("dkr", f)

    def pc(self, sw, sg):
        fl, (a, a0), (b, b0) = self.fl, self.arg("sw", sw), self.arg("sg", sg)
        self.ask("pc", lambda: {"sw": a0, "sg": b0, "pc": fl.get_capillary_pressure(a),
                                "pcog": fl.get_capillary_pressure_og(b),
                                "dpc": fl.get_capillary_pressure_derivative(a),
                                "dpcog": fl.get_capillary_pressure_og_derivative(b)})

    def den(self, p, flat=False):
        fl, (a, a0) = self.fl, self.arg("p", p)
        if flat:                                  # the same cells as a plain list
            a, a0 = a.reshape(-1), a0.reshape(-1)
        self.ask("den", lambda: {"p": a0, "rho_w": fl.calc_water_density(a), "rho_o": fl.calc_oil_density(a),
                                 "rho_g": fl.calc_gas_density(a)})

    def cur(self):
        fl = self.fl
        self.ask("cur", lambda: {k: getattr(fl, k) for k in ("rho_w", "rho_o", "rho_g", "mu_w", "mu_o", "mu_g")})

    def ct(self, p, sw, sg):
        fl, (a, a0), (b, b0), (c, c0) = self.fl, self.arg("p", p), self.arg("sw", sw), self.arg("sg", sg)
        self.ask("ct", lambda: {"p": a0, "sw": b0, "sg": c0, "ct": fl.calc_total_compressibility(a, b, c)})

    def pvt(self, p_mpa, shape=None):
        x = np.asarray(p_mpa, dtype=float)
        if shape:
            x = x.reshape(shape)
        self.ask("pvt", lambda: {"p": x.copy(), **self.fl.pvt.eval(x)})

    def load(self, table, scratch):
        from simulator.pvt import PVTTable
        path = simdrv.pvt_file(table, scratch)
        try:
            PVTTable(path)
            ok = True
        except Exception:
            ok = False
        self.ev.append({"k": "load", "doc": doc(table), "ok": ok, "after": self.fields()})

    def scenario(self):
        return {"id": self.sid, "fluid": doc(self.cfg), "pvt": [doc(self.table)] if self.table is not None else [],
                "init": self.init, "ev": self.ev}


def family():
    """The fluids MCFluid walks over."""
    T = {"pressure_MPa": [5.0, 12.0, 20.0, 32.0], "Bo": [1.4, 1.3, 1.22, 1.1], "Bw": [1.04, 1.02, 1.01, 0.99],
         "Bg": [0.05, 0.02, 0.012, 0.008], "mu_o_cP": [2.5, 2.0, 1.5, 1.75], "mu_w_cP": [0.5, 0.5, 0.52, 0.55],
         "mu_g_cP": [0.012, 0.015, 0.02, 0.026], "Rs_m3m3": [20.0, 50.0, 90.0, 140.0]}
    TR = {**T, "Rv_m3m3": [0.0, 2e-4, 6e-4, 5e-4]}
    T2 = {k: [v[0], v[-1]] for k, v in TR.items()}
    out = []
    for i, (swc, sor, sgc) in enumerate([(0.0, 0.0, 0.0), (0.2, 0.2, 0.0), (0.25, 0.1, 0.05), (0.1, 0.3, 0.125)]):
        for j, model in enumerate(["corey", "stone2"]):
            rp = {"model": model, "sw_cr": swc, "so_r": sor, "sg_cr": sgc,
                  "nw": [1, 2, 3, 2.5][i], "no": [2, 1, 1.5, 3][i], "ng": [3, 2, 1, 2][i]}
            if i % 2:
                rp.update(krw_end=0.4, krg_end=0.7)
            if model == "stone2" and i > 1:
                rp.update(ko_end_w=0.9, ko_end_g=0.8, now=2, nog=1.5)
            f = {"relative_permeability": rp, "rho_gas": [1.0, 80.0][j], "c_gas": 1e-3, "c_oil": [1e-3, 2e-4][j],
                 "mu_oil": 2.0 + i}
            if i in (1, 3):
                f["capillary_pressure"] = {"pc_scale": 2e4, "pc_exponent": [0.5, 1.5][j]}
            if i in (2, 3):
                f["capillary_pressure_og"] = {"pc_scale": 1e4, "pc_exponent": [1.0, 1.5][j]}
            if i == 2 and j == 0:
                f.update(pc_scale=5e3, pc_exponent=1.0)
            out.append((f"f{i}{model}", f, [None, T, TR, T2, TR, None, T2, T][2 * i + j]))
    return out


GRID_SW = [0.0, 0.1, 0.2, 0.25, 0.3, 0.4, 0.55, 0.7, 0.8, 0.9, 1.0]
GRID_SG = [0.0, 0.05, 0.125, 0.3, 0.5, 0.7, 1.0]
GRID_P = [1e6, 5e6, 8e6, 12e6, 15e6, 20e6, 27e6, 32e6, 40e6]
USED = {"C16": (1, 1, 1), "C17": (1, 1, 1), "C18": (9, 0, 0), "C19": (9, 1, 1)}


def walk(ctx):
    fam = family()
    Ps = GRID_P if ctx.prop in ("C18", "C19") else GRID_P[4:5]
    Ws, Gs = (GRID_SW, GRID_SG) if ctx.prop in ("C16", "C17") else (GRID_SW[::5], GRID_SG[::6])
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump([{"id": i, "fluid": doc(fc), "pvt": [doc(t)] if t else [], "P": [raw(x) for x in Ps],
                    "sw": [raw(x) for x in Ws], "sg": [raw(x) for x in Gs]} for i, fc, t in fam], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCFluid", env={"LATTICE": path, "PROP": ctx.prop})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    at = {}
    for o in objs:
        at.setdefault(o["cfg"], []).append(o["at"])
    out = []
    for i, fc, t in fam:
        pts = sorted(at[i])
        r = ctx.rng("walk", i)
        r.shuffle(pts)
        for q in range(0, len(pts), 24):
            part = pts[q:q + 24]
            part += part[:1] * (24 - len(part))
            p, w, g = [Ps[a - 1] for a, _, _ in part], [Ws[b - 1] for _, b, _ in part], [Gs[c - 1] for _, _, c in part]
            rec = Rec(f"{i}/{q}", fc, t, (2, 3, 4), ctx.sub("pvt"))
            questions(rec, ctx.prop, r, p, w, g)
            out.append(rec.scenario())
    ctx.count(grid_states_replayed=sum(map(len, at.values())))
    ctx.sample({"fluid": fam[2][1], "states": len(at[fam[2][0]])})
    return out


HOW = ["new", "new", "place", "some"]


def questions(rec, prop, r, p, w, g):
    if prop == "C16":
        rec.kr(w, g, r.choice(["pair", "each"]))
        rec.dkr(w, g)
        rec.set(p, w, g, r.choice(HOW))
        rec.kr(w, g, "cur")
        if r.random() < 0.5:                       # the same water in the same object, other gas
            rec.set(p, w, g[1:] + g[:1], r.choice(["some", "place"]))
            rec.kr(w, g, "cur")
    elif prop == "C17":
        rec.pc(w, g)
    elif prop == "C18" and rec.table is not None:
        rec.pvt([x / 1e6 for x in p], shape=r.choice([None, rec.dims, (1, -1)]))
        rec.set(p, w, g)
    elif prop == "C19":
        rec.den(p, flat=r.random() < 0.3)
        rec.set(p, w, g, r.choice(HOW))
        rec.cur()
        rec.ct(p, w, g)
        if r.random() < 0.5:
            rec.set(p[1:] + p[:1], w, g, r.choice(["some", "place"]))
            rec.cur()
            rec.ct(p, w[1:] + w[:1], g)


def near(r, x):
    """x, or one binary32 step next to it"""
    a = np.float32(x)
    return float(r.choice([a, np.nextafter(a, np.float32(2)), np.nextafter(a, np.float32(-1))]))


def saturation(r, rp):
    a = r.choice([near(r, rp["sw_cr"]), near(r, 1 - rp["so_r"]), 0.0, 1.0, rp["sw_cr"] + 1e-5] + [r.uniform(0, 1)] * 6)
    top = 1 - rp["sw_cr"] - rp["so_r"]
    b = r.choice([near(r, rp["sg_cr"]), near(r, top), 0.0, r.uniform(0, top)] + [r.uniform(0, 1)] * 3)
    a = min(max(a, 0.0), 1.0)
    return a, min(max(b, 0.0), 1.0)


def broken(r, t):
    """A table with something wrong with it, or only looking so."""
    t = json.loads(json.dumps(t))
    cols = ["Bo", "Bw", "Bg", "mu_o_cP", "mu_w_cP", "mu_g_cP", "Rs_m3m3"]
    k = r.choice(["drop", "short", "long", "dropP", "swap", "rep", "norv", "rvshort", "rvlong", "extra", "empty", "fine", "shortP"])
    c = r.choice(cols)
    if k == "drop":
        del t[c]
    elif k == "short":
        t[c].pop()
    elif k == "long":
        t[c].append(1.0)
    elif k == "dropP":
        del t["pressure_MPa"]
    elif k == "shortP":
        t["pressure_MPa"].pop()
    elif k == "swap":
        i = r.randrange(len(t["pressure_MPa"]) - 1)
        P = t["pressure_MPa"]
        P[i], P[i + 1] = P[i + 1], P[i]
    elif k == "rep":
        t["pressure_MPa"][-1] = t["pressure_MPa"][-2]
    elif k == "norv":
        t.pop("Rv_m3m3", None)
    elif k == "rvshort":
        t["Rv_m3m3"] = [0.0] * (len(t["Bo"]) - 1)
    elif k == "rvlong":
        t["Rv_m3m3"] = [0.0] * (len(t["Bo"]) + 1)
    elif k == "extra":
        t["note"] = "x"
    elif k == "empty":
        for q in list(t):
            t[q] = []
    return t


def random_runs(ctx, n):
    out = []
    for i in range(n):
        r = ctx.rng("fluid", i)
        fc = gen.fluid(r, {"cap": 0.8 if ctx.prop == "C17" else 0.3})
        table = gen.pvt_table(r) if ctx.prop == "C18" or (ctx.prop == "C19" and r.random() < .65) else None
        dims = r.choice([(1, 1, 1), (2, 3, 2), (3, 1, 2), (1, 4, 1), (2, 2, 3), (4, 3, 1), (1, 2, 6)])
        m = int(np.prod(dims))
        rec = Rec(f"r{i}", fc, table, dims, ctx.sub("pvt"))
        for _ in range(ctx.n(3, 6)):
            s = [saturation(r, fc["relative_permeability"]) for _ in range(m)]
            if ctx.prop == "C19":
                s = [(a, min(b, 1 - a)) for a, b in s]
            span = table["pressure_MPa"] if table else [1, 40]
            p = [1e6 * r.choice([r.uniform(span[0], span[-1]), r.choice(span), r.uniform(0.1, 80)]) for _ in range(m)]
            questions(rec, ctx.prop, r, p, [a for a, _ in s], [b for _, b in s])
            if ctx.prop == "C16":
                rec.kr([a for a, _ in s], [b for _, b in s], "each")
            if ctx.prop == "C18":
                rec.load(broken(r, table), ctx.sub("pvt"))
                if r.random() < .5:
                    x = [r.choice([r.choice(span), r.uniform(span[0], span[-1]), span[0] - 1, span[-1] + 3]) for _ in range(7)]
                    rec.pvt(x)
        out.append(rec.scenario())
        if i < 3:
            ctx.sample({"fluid": fc, "dims": dims})
    ctx.count(random_fluids=n, evaluations=sum(len(s["ev"]) for s in out))
    return out


def fluid_check(ctx):
    scen = walk(ctx)
    scen += random_runs(ctx, ctx.n(700, 12000))
    for i in range(0, len(scen), 1200):
        steps.judge(ctx, scen[i:i + 1200], spec="FluidTrace", tag=f"f{i}_")
