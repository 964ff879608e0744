"""C30: the generator of PVT tables.  Histories of MCPvtGen and random requests are made to the real
function and to the real command line; the documents are checked by PvtGenTrace."""
import json
import os
import sys

import numpy as np

import core
import simdrv
import steps
import tlc
from enc import doc, raw

FLAGS = {"p_min": "--p-min", "p_max": "--p-max", "pb": "--pb", "n": "--n", "temp": "--temp", "api": "--api", "sg": "--gas-sg",
         "salt": "--salinity"}
FIELDS = {"p_min": "p_min_mpa", "p_max": "p_max_mpa", "pb": "bubble_point_mpa", "n": "n_points", "temp": "temperature_c",
          "api": "oil_api", "sg": "gas_sg", "salt": "salinity_gpl"}


def given(a):
    return {k: (v if k == "n" else raw(v)) for k, v in a.items()} or {"none": 0}


class Rec:
    def __init__(self, sid, root):
        self.sid, self.root, self.ev = sid, root, []

    def guard(self, k, fn):
        try:
            with simdrv.quiet():
                return fn()
        except (Exception, SystemExit) as ex:
            self.ev.append({"k": "raise", "what": f"{k}: {type(ex).__name__}: {ex}"})

    def make(self, a):
        from simulator.pvt_generator import PVTParams, generate_black_oil_pvt
        d = self.guard("generate", lambda: generate_black_oil_pvt(PVTParams(**{FIELDS[k]: v for k, v in a.items()})))
        if d is not None:
            self.ev.append({"k": "make", "given": given(a), "doc": doc(d)})

    def path(self, f):
        return os.path.join(self.root, *f.split("/"))

    def write(self, r, f, a, rel):
        """The command line, from the directory the file is named relative to."""
        from simulator import pvt_generator
        out = f + ".json" if rel else self.path(f) + ".json"
        args = ["x", "--out", out]
        ks = list(a)
        r.shuffle(ks)
        for k in ks:
            args += [FLAGS[k], repr(a[k])] if r.random() < .7 else [f"{FLAGS[k]}={a[k]!r}"]

        def go():
            old, cwd = sys.argv, os.getcwd()
            sys.argv = args
            os.chdir(self.root)
            try:
                pvt_generator.main()
            finally:
                sys.argv = old
                os.chdir(cwd)
            return json.load(open(self.path(f) + ".json", encoding="utf-8"))
        d = self.guard("command line", go)
        if d is not None:
            self.ev.append({"k": "write", "file": f, "given": given(a), "doc": doc(d)})
        return d is not None

    def read(self, r, f):
        from simulator.pvt import PVTTable
        p = self.path(f) + ".json"
        d = json.load(open(p, encoding="utf-8"))
        P = d["pressure_MPa"]
        q = np.array([r.choice([r.choice(P), r.uniform(P[0] - 1, P[-1] + 3), r.uniform(0, 80)]) for _ in range(6)])
        try:
            with simdrv.quiet():
                ans = PVTTable(p).eval(q.copy())
            v = {k: [raw(x) for x in np.broadcast_to(np.asarray(ans[k], dtype=float), (6,))]
                 for k in ("Bo", "Bw", "Bg", "mu_o", "mu_w", "mu_g", "Rs", "Rv")}
            v["p"] = [raw(x) for x in q]
            ok = True
        except Exception:
            ok, v = False, {"none": 0}
        self.ev.append({"k": "read", "file": f, "doc": doc(d), "ok": ok, "r": v})

    def scenario(self):
        return {"id": self.sid, "ev": self.ev}


def params(r):
    a = {}
    pmin = r.choice([5.0, 0.1, 1.0, 10.0, r.uniform(0.01, 30)])
    pmax = r.choice([60.0, r.uniform(pmin + 0.5, 120)])
    if pmax <= pmin:
        pmax = pmin + 10
    full = {"p_min": pmin, "p_max": pmax, "n": r.choice([1, 2, 3, 7, 12, 30]),
            "pb": r.choice([pmin, pmax, pmin + (pmax - pmin) / 2, r.uniform(0.5, 1.5) * pmin, r.uniform(pmin, pmax), pmax + 7, 20.0]),
            "temp": r.uniform(20, 150), "api": r.choice([35.0, r.uniform(-20, 60), 120.0, 10.0]), "sg": r.choice([0.7, 0.55, r.uniform(0.5, 1.5), 3.5]),
            "salt": r.uniform(0, 300)}
    for k, v in full.items():
        if k in ("p_min", "p_max") or r.random() < .8:
            a[k] = v
    if r.random() < .15 and a.get("pb", 20.0) is not None:
        a = {k: v for k, v in a.items() if k not in ("p_min", "p_max")}
    return a


def family():
    f = [("default", {}), ("low", {"p_min": 1.0, "p_max": 15.0, "n": 8}), ("high", {"p_min": 25.0, "p_max": 80.0, "n": 12, "api": 20.0}),
         ("one", {"n": 1}), ("two", {"n": 2, "pb": 60.0}), ("light", {"api": 110.0, "sg": 1.2, "n": 11}),
         ("heavy", {"api": -20.0, "n": 5, "pb": 32.5}), ("deep", {"p_min": 0.5, "p_max": 200.0, "n": 25, "pb": 90.0})]
    return f


def pvtgen_check(ctx):
    fam = family()
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump([{"id": i, "given": given(a)} for i, a in fam], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCPvtGen", env={"LATTICE": path, "PROP": ctx.prop, "DEPTH": str(ctx.n(2, 3))})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    by = dict(fam)
    hists = sorted((tuple((h["file"], h["par"]) for h in o["hist"]) for o in objs), key=lambda h: (-len(h), h))
    hists = [h for h in hists if len(h) == ctx.n(2, 3)]
    n = ctx.n(130, 1500)
    if len(hists) > n:
        hists = ctx.rng("hists").sample(hists, n)
    scen = []
    for q, h in enumerate(hists):
        r = ctx.rng("replay", q)
        rec = Rec(f"h{q}", ctx.sub(f"h{q}"))
        names = {"a": r.choice(["a", "sub/dir/a"]), "b": r.choice(["b", "sub/b"])}
        for f, p in h:
            if rec.write(r, names[f], by[p], r.random() < .5) and r.random() < .5:
                rec.read(r, names[f])
        for f in sorted({f for f, _ in h}):
            if os.path.exists(rec.path(names[f]) + ".json"):
                rec.read(r, names[f])
        scen.append(rec.scenario())
    for q in range(ctx.n(150, 3000)):
        r = ctx.rng("random", q)
        rec = Rec(f"r{q}", ctx.sub(f"r{q}"))
        for _ in range(3):
            a = params(r)
            rec.make(a)
            if r.random() < .4 and rec.write(r, "t", a, r.random() < .5):
                rec.read(r, "t")
        scen.append(rec.scenario())
    ctx.count(histories_generated=len(objs), histories_replayed=len(hists), requests=sum(len(s["ev"]) for s in scen))
    ctx.sample({"history": hists[0]})
    for i in range(0, len(scen), 400):
        steps.judge(ctx, scen[i:i + 400], spec="PvtGenTrace", tag=f"g{i}_")
