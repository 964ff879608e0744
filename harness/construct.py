"""C20: construction of models from configuration documents."""
import copy
import json
import os

import numpy as np
import torch

import core
import gen
import simdrv
import steps
import tlc
from enc import arr, doc, raw


def build(sid, cfg, table, r, scratch):
    """Builds the model with the real classes, stage by stage, and records what came out."""
    from simulator.fluid import Fluid
    from simulator.reservoir import Reservoir
    from simulator.simulation import Simulator
    from simulator.well import WellManager
    ev = []
    fc = copy.deepcopy(cfg["fluid"])
    if table is not None:
        path = simdrv.pvt_file(table, scratch)
        if r.random() < .5:
            fc["pvt_path"] = path
        else:
            fc["pvt"] = {"path": path}
    scen = {"id": sid, "cfg": doc(cfg), "pvt": [doc(table)] if table is not None else [], "ev": ev}
    with simdrv.quiet():
        try:
            res = Reservoir(copy.deepcopy(cfg["reservoir"]), device=simdrv.DEV)
        except Exception as ex:
            ev.append({"k": "raise", "what": f"Reservoir: {type(ex).__name__}: {ex}"})
            return scen
        nx, ny, nz = res.dimensions
        cells = [[i, j, k] for i in range(nx) for j in range(ny) for k in range(nz)]
        ev.append({"k": "res", "r": {
            "dims": [int(x) for x in res.dimensions], "gs": arr(res.grid_size), "vol": raw(float(res.cell_volume)),
            "phi": arr(res.porosity), "pv": arr(res.porous_volume), "kx": arr(res.permeability_tensors[0]),
            "ky": arr(res.permeability_tensors[1]), "kz": arr(res.permeability_tensors[2]),
            "crock": raw(float(res.rock_compressibility)), "cells": cells, "index": [int(res.get_cell_indices(*c)) for c in cells]}})
        try:
            wm = WellManager(copy.deepcopy(cfg["wells"]), res)
        except Exception:
            ev.append({"k": "wells", "ok": False, "r": []})
            return scen
        flat = [int(x) for x in wm.get_well_indices_flat()]
        ev.append({"k": "wells", "ok": True, "r": [
            {"name": w.name, "pos": [int(w.i), int(w.j), int(w.k)], "flat": f, "inj": w.type == "injector", "ctl": w.control_type,
             "val": raw(w.control_value), "phase": w.injected_phase, "surface": w.rate_type == "surface",
             "lim": doc(w.limits or {}), "bmin": [] if w.bhp_min is None else [raw(w.bhp_min)],
             "wi": [] if w.well_index is None else [raw(w.well_index)]} for w, f in zip(wm.get_wells(), flat)]})
        try:
            fl = Fluid(fc, res, device=simdrv.DEV)
        except Exception:
            ev.append({"k": "fluid", "ok": False, "r": {"none": 0}})
            return scen
        n = nx * ny * nz
        t = lambda v: simdrv.f32(v, res.dimensions)
        qw, qg = t([r.uniform(0, 1) for _ in range(n)]), t([r.uniform(0, .5) for _ in range(n)])
        qp = t([r.uniform(1e6, 4e7) for _ in range(n)])
        one = lambda x: float(x.reshape(-1)[0]) if torch.is_tensor(x) else float(x)
        kro, krw, krg = fl.get_rel_perms(qw, qg)
        ev.append({"k": "fluid", "ok": True, "r": {
            "P": arr(fl.pressure), "sw": arr(fl.s_w), "sg": arr(fl.s_g), "so": arr(fl.s_o),
            "qw": arr(qw), "qg": arr(qg), "qp": arr(qp), "krw": arr(krw), "kro": arr(kro), "krg": arr(krg),
            "pc": arr(fl.get_capillary_pressure(qw)), "pcog": arr(fl.get_capillary_pressure_og(qg)),
            "rw": arr(fl.calc_water_density(qp)), "ro": arr(fl.calc_oil_density(qp)), "rg": arr(fl.calc_gas_density(qp)),
            "mu": [raw(one(fl.mu_w)), raw(one(fl.mu_o)), raw(one(fl.mu_g))],
            "ct": arr(fl.calc_total_compressibility(qp, qw, qg))}})
        try:
            sim = Simulator(res, fl, wm, copy.deepcopy(cfg.get("simulation", {})), device=simdrv.DEV)
            nz_ = [f"{a}.{b}.{c}" for a, led in (("mass", sim.mass_balance), ("component", sim.component_balance))
                   for b, x in led.items() for c, v in x.items() if v != 0.0]
            ev.append({"k": "ready", "ledger": nz_})
        except Exception as ex:
            ev.append({"k": "raise", "what": f"Simulator: {type(ex).__name__}: {ex}"})
    return scen


def sparse(r, cfg, p=0.25):
    """Leaves optional entries to their defaults."""
    for part, keep in (("reservoir", ()), ("fluid", ())):
        for k in list(cfg[part]):
            if k not in keep and r.random() < p * (0.3 if k == "dimensions" else 1):
                del cfg[part][k]
    rp = cfg["fluid"].get("relative_permeability", {})
    for k in list(rp):
        if r.random() < p and k != "model":
            del rp[k]


def other_format(cfg):
    """The same model written in the other format."""
    c = copy.deepcopy(cfg)
    for w in c["wells"]:
        if "coordinates" in w:
            w["i"], w["j"], w["k"] = w.pop("coordinates")
        elif all(q in w for q in "ijk"):
            w["coordinates"] = [w.pop("i"), w.pop("j"), w.pop("k")]
        if "control" in w:
            k = w.pop("control")
            w.update({"control_" + q: v for q, v in k.items()})
        elif "control_type" in w and "control_value" in w:
            w["control"] = {"type": w.pop("control_type"), "value": w.pop("control_value")}
    f = c["fluid"]
    if "capillary_pressure" in f:
        f.update(f.pop("capillary_pressure"))
    elif "pc_scale" in f:
        f["capillary_pressure"] = {k: f.pop(k) for k in ("pc_scale", "pc_exponent") if k in f}
    return c


def spoil(r, cfg):
    """One thing wrong (or almost wrong)."""
    dims = cfg["reservoir"].get("dimensions", [10, 10, 1])
    gs = cfg["reservoir"].get("grid_size", [10.0, 10.0, 10.0])
    w = r.choice(cfg["wells"]) if cfg["wells"] else None
    kind = r.choice(["pos", "pos", "neg", "edge", "nopos", "noctl", "halfctl", "fat", "fat", "thin", "noname", "full", "brim", "halfpos"])
    if kind in ("full", "brim"):
        a = r.choice([0.7, 0.6, 0.5, 0.85])
        cfg["fluid"]["s_w"] = a
        cfg["fluid"]["s_g"] = (1 - a) + (r.choice([1e-3, 0.05, 0.5]) if kind == "full" else 0.0)
        return
    if w is None:
        return
    pos = [w.pop(q) for q in "ijk"] if "i" in w else list(w.pop("coordinates", [0, 0, 0]))
    q = r.randrange(3)
    if kind == "pos":
        pos[q] = dims[q] + r.choice([0, 0, 1, 5])
    elif kind == "neg":
        pos[q] = -r.choice([1, 1, 2, dims[q]])
    elif kind == "edge":
        pos[q] = dims[q] - 1
    if kind != "nopos":
        if r.random() < .5:
            w["coordinates"] = pos
        else:
            w["i"], w["j"], w["k"] = pos
            if kind == "halfpos":
                del w[r.choice("ijk")]
    if kind == "noctl":
        for k in ("control", "control_type", "control_value"):
            w.pop(k, None)
    elif kind == "halfctl":
        if "control" in w:
            w["control"].pop(r.choice(["type", "value"]))
        else:
            w.pop(r.choice(["control_type", "control_value"]))
    elif kind in ("fat", "thin"):
        ro = 0.14 * (gs[0] ** 2 + gs[1] ** 2) ** .5
        w["radius"] = ro * (r.choice([1.001, 1.5, 10]) if kind == "fat" else r.choice([0.9, 0.99]))
        if r.random() < .5 and w.get("type") == "producer":
            w["bhp_min"] = 5.0
    elif kind == "noname":
        w.pop(r.choice(["name", "type", "radius"]), None)


def zeros(r, cfg):
    """Entries that are given, and zero: zero is a value, not a missing entry."""
    f, rp = cfg["fluid"], cfg["fluid"].get("relative_permeability")
    where = [(cfg["reservoir"], k) for k in ("k_vertical_fraction", "permeability", "c_rock")]
    where += [(f, k) for k in ("c_oil", "c_water", "c_gas", "c_rock", "s_w", "s_g", "rho_gas", "pc_scale", "pc_exponent")]
    where += [(f[q], k) for q in ("capillary_pressure", "capillary_pressure_og") if q in f for k in ("pc_scale", "pc_exponent")]
    if rp is not None:
        where += [(rp, k) for k in ("krw_end", "krg_end", "ko_end_w", "ko_end_g", "sw_cr", "so_r", "sg_cr")]
    for w in cfg["wells"]:
        where += [(w, "bhp_min")] if w["type"] == "producer" else []
        where += [(w["control"], "value")] if "control" in w else [(w, "control_value")]
        where += [(w["limits"], k) for k in list(w.get("limits", {}))]
    for d, k in r.sample(where, r.choice([1, 1, 2, 3])):
        d[k] = 0.0


def document(r, theme=None):
    cfg, table, _, _ = gen.scenario(r, {"pfield": 0, "hetero": 0, **(theme or {})})
    cfg = copy.deepcopy(cfg)
    if r.random() < .3:
        cfg["reservoir"]["grid_size"] = [r.uniform(0.5, 60) for _ in range(3)]
    if r.random() < .4:
        cfg["reservoir"]["c_rock"] = 10 ** r.uniform(-8, -2)
    if r.random() < .3:
        zeros(r, cfg)
    return cfg, table


def construct_check(ctx):
    docs = []
    for i in range(ctx.n(60, 400)):
        r = ctx.rng("lattice", i)
        cfg, _ = document(r, {"pvt": 0.0, "nwells": [0, 1, 2, 3]})
        if i % 3 == 0:
            spoil(r, cfg)
        docs.append((f"d{i}", cfg, f"s{i}"))
        docs.append((f"d{i}o", other_format(cfg), f"s{i}"))
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump([{"id": i, "cfg": doc(c), "same": s} for i, c, s in docs], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCConstruct", env={"LATTICE": path, "PROP": ctx.prop})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    by = {i: c for i, c, _ in docs}
    done = sorted((o["cfg"], o["stage"]) for o in objs)
    pv = ctx.sub("pvt")
    scen = core.pmap(lambda q: build(f"m{done[q][0]}", by[done[q][0]], None, ctx.rng("b", q), pv), len(done))

    def one(i):
        r = ctx.rng("random", i)
        cfg, table = document(r)
        if r.random() < .5:
            sparse(r, cfg)
        if r.random() < .4:
            spoil(r, cfg)
        return build(f"r{i}", cfg, table, r, pv)
    scen += core.pmap(one, ctx.n(800, 9000))
    ctx.count(documents=len(scen), rejected=sum(any(e.get("ok") is False for e in s["ev"]) for s in scen))
    ctx.sample({"document": docs[0][1]})
    for i in range(0, len(scen), 1000):
        steps.judge(ctx, scen[i:i + 1000], spec="ConstructTrace", tag=f"c{i}_")
