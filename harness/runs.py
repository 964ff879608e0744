"""C14, C15, C29: whole runs.  The real Simulator.run / main.main is driven with planned step outcomes
(behaviours of MCRunLoop) or the real solver; what it does and writes is recorded for RunTrace."""
import contextlib
import glob
import json
import os
import re
import sys

import numpy as np
import torch

import core
import gen
import simdrv
import steps
import tlc
from enc import arr, doc, raw


def colour(code):
    """A colour per picture number (below 125), recovered from the frames of the animation."""
    return tuple(60 * d for d in (code % 5, code // 5 % 5, code // 25 % 5))


def decode(rgb):
    a, b, c = (int(round(v / 60)) for v in rgb[:3])
    return a + 5 * b + 25 * c


def png(path, code):
    from PIL import Image
    Image.new("RGB", (16, 16), colour(code)).save(path)


def frames(path):
    from PIL import Image, ImageSequence
    im = Image.open(path)
    ms = im.info.get("duration", 0)
    return [decode(f.convert("RGB").getpixel((5, 5))) for f in ImageSequence.Iterator(im)], float(ms)


@contextlib.contextmanager
def chdir(d):
    old = os.getcwd()
    os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


class Recorder:
    def __init__(self, sid, par, dims, name):
        self.sid, self.par, self.dims, self.name = sid, par, dims, name
        self.ev, self.init = [], None
        self.plan, self.r = None, None
        self.sim = None

    def fields(self):
        fl, mb = self.sim.fluid, self.sim.mass_balance
        return {"P": arr(fl.pressure), "sw": arr(fl.s_w), "sg": arr(fl.s_g), "so": arr(fl.s_o),
                "mass": {"win": raw(mb["water"]["in"]), "wout": raw(mb["water"]["out"]), "oin": raw(mb["oil"]["in"]),
                         "oout": raw(mb["oil"]["out"]), "gin": raw(mb["gas"]["in"]), "gout": raw(mb["gas"]["out"])}}

    # -- stand-ins ---------------------------------------------------------
    def step(self, sim, dt):
        if self.sim is None:
            self.sim = sim
            self.init = self.fields()
        if self.plan is None:
            ok = bool(self.real_step(sim, dt))
        else:
            ok = self.plan.pop(0) if self.plan else True
            if ok:
                self.invent()
        self.ev.append({"k": "step", "dt": raw(float(dt)), "ok": ok, "st": self.fields()})
        return ok

    def invent(self):
        """What a time step would do, without solving anything."""
        r, fl, d = self.r, self.sim.fluid, self.dims
        n = int(np.prod(d))
        fl.pressure = simdrv.f32([r.uniform(5e6, 4e7) for _ in range(n)], d)
        spread, low = r.choice([0.3, 0.05, 0.0]), r.choice([0.3, 0.3, 0.1, 0.0])
        fl.s_w = simdrv.f32([low + r.uniform(0, spread) for _ in range(n)], d)
        gas = r.choice([0.0, 0.0, 1e-7, 0.2, 0.2, 0.65])
        least = r.choice([0.5, 0.5, 0.0, 1.0])
        fl.s_g = simdrv.f32([min(1.0 - low - spread, gas) * r.uniform(least, 1) for _ in range(n)], d)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        for ph in ("water", "oil", "gas"):
            for k in ("in", "out"):
                self.sim.mass_balance[ph][k] += 10 ** r.uniform(-3, 9) if r.random() < .8 else 0.0

    def savefig(self, fig, fname):
        base = os.path.basename(str(fname))
        m = re.fullmatch(re.escape(self.name) + r"_step_(\d+)\.png", base)
        step = int(m.group(1)) if m else 0 if base == self.name + "_final.png" else -1
        panels, title = [], ""
        for ax in fig.axes:
            if not ax.images:
                continue
            im = ax.images[0]
            a = np.asarray(im.get_array(), dtype=float)
            lo, hi = im.get_clim()
            if a.ndim != 2:
                a = a.reshape(1, -1)
            panels.append({"img": [raw(x) for x in a.reshape(-1)], "rows": a.shape[0], "cols": a.shape[1],
                           "lo": raw(float(lo)), "hi": raw(float(hi))})
            title = title or ax.get_title()
        z = re.search(r"Z=(\d+)", title)
        day = re.search(r"День\s+([-+.\deE]+)", title)
        self.ev.append({"k": "pic", "step": step, "panels": panels, "z": int(z.group(1)) if z else -1,
                        "day": raw(float(day.group(1)) if day else -1.0)})
        png(fname, step % 125 if step >= 0 else 124)

    # -- after the run -----------------------------------------------------
    def results(self, root):
        dirs = sorted(glob.glob(os.path.join(glob.escape(root), "results", glob.escape(self.name) + "_*")))
        if len(dirs) != 1:
            self.ev.append({"k": "raise", "what": f"{len(dirs)} results directories"})
            return
        d, n = dirs[0], self.name
        parts, pics, other = [], [], []
        for base, _, fs in os.walk(d):
            for f in fs:
                rel = os.path.relpath(os.path.join(base, f), d)
                m = re.fullmatch(r"intermediate/" + re.escape(n) + r"_step_(\d+)\.png", rel)
                kind = {n + ".txt": "txt", n + ".npz": "npz", n + ".gif": "gif", n + "_final.png": "final"}.get(rel)
                pics.append(int(m.group(1))) if m else parts.append(kind) if kind else other.append(rel)
        p = os.path.join(d, n)
        if "txt" in parts:
            self.ev.append({"k": "txt", **self.summary(open(p + ".txt", encoding="utf-8").read())})
        if "npz" in parts:
            z = np.load(p + ".npz")
            r = {k: [raw(x) for x in z[k].astype(float).reshape(-1)] for k in z.files}
            shapes = {tuple(z[k].shape) for k in z.files}
            self.ev.append({"k": "npz", "r": r, "shape": list(shapes.pop()) if len(shapes) == 1 else [0, 0, 0]})
        if "gif" in parts:
            f, ms = frames(p + ".gif")
            self.ev.append({"k": "gif", "frames": f, "ms": raw(ms)})
        self.ev.append({"k": "end", "pictures": sorted(pics), "parts": sorted(parts), "other": other})

    def summary(self, text):
        r = {}
        num = r"([-+.\deEnainf]+)"
        for line in text.splitlines():
            m = re.match(r"(Pressure MPa|Sw|Sg|So|water|oil|gas|total)\s*:?\s*(\w+=.*)$", line)
            if m:
                for k, v in re.findall(r"(\w+)=" + num, m.group(2)):
                    r[f"{m.group(1)} {k}"] = raw(float(v))
        arrays = []
        for what in ("Pressure (MPa)", "Water Saturation", "Gas Saturation", "Oil Saturation"):
            i = text.find("Final " + what + ":")
            if i >= 0:
                body = text[i + len("Final " + what + ":"):].split("Final ")[0]
                arrays.append([raw(float(x)) for x in re.findall(r"[-+]?\d+\.?\d*(?:e[-+]?\d+)?", body)])
        return {"r": r, "full": len(arrays) == 4, "arrays": arrays}

    def scenario(self):
        p = self.par
        return {"id": self.sid, "dims": list(self.dims), "init": self.init,
                "par": {"total": raw(p["total"]), "dt": raw(p["dt"]), "interval": p["interval"], "fps": p["fps"],
                        "npz": p["npz"], "full": p["full"]}, "ev": self.ev}


def run(rec, cfg, root, cli=False):
    """Runs cfg through Simulator.run, or through main.main on a configuration file."""
    import matplotlib.figure
    from simulator.simulation import Simulator
    os.makedirs(root, exist_ok=True)
    rec.real_step = Simulator.run_step
    old = (Simulator.run_step, matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout, list(sys.argv))
    Simulator.run_step = lambda sim, dt: rec.step(sim, dt)
    matplotlib.figure.Figure.savefig = lambda fig, fname, *a, **k: rec.savefig(fig, fname)
    matplotlib.figure.Figure.tight_layout = lambda fig, *a, **k: None
    try:
        with simdrv.quiet(), chdir(root):
            if cli:
                path = os.path.join(root, "config.json")
                with open(path, "w") as f:
                    json.dump(cfg, f)
                sys.argv = ["main.py", "--config", path]
                import main
                main.main()
            else:
                from simulator.fluid import Fluid
                from simulator.reservoir import Reservoir
                from simulator.well import WellManager
                res = Reservoir(cfg["reservoir"], device=simdrv.DEV)
                wm = WellManager(cfg["wells"], res)
                sim = Simulator(res, Fluid(cfg["fluid"], res, device=simdrv.DEV), wm, cfg["simulation"], device=simdrv.DEV)
                rec.sim = sim
                rec.init = rec.fields()
                sim.run(rec.name, cfg.get("save_vtk", False))
    except Exception as ex:
        rec.ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
    finally:
        Simulator.run_step, matplotlib.figure.Figure.savefig, matplotlib.figure.Figure.tight_layout, sys.argv = old
    rec.results(root)


def config(r, par, dims):
    sim = {"solver_type": "impes", "total_time_days": par["total"], "time_step_days": par["dt"],
           "save_interval": par["interval"], "animation_fps": par["fps"]}
    if not par["npz"] or r.random() < .5:
        sim["save_npz"] = par["npz"]
    if par["full"] or r.random() < .5:
        sim["write_full_arrays_txt"] = par["full"]
    f = gen.fluid(r, {})
    sw, sg = r.choice([(0.3, 0.0), (0.4, 0.1), (0.25, 0.0)])
    f["s_w"], f["s_g"] = sw, sg
    return {"description": "x", "reservoir": {"dimensions": list(dims), "grid_size": [10.0, 20.0, 3.0], "porosity": 0.2, "permeability": 120.0},
            "fluid": f, "wells": [], "simulation": sim}


def family():
    out = []
    for i, (total, dt) in enumerate([(1.0, 1.0), (0.3, 0.1), (0.7, 0.1), (5, 2), (1, 3), (1.2, 0.4), (0.6, 0.2), (6, 1), (2.9, 1), (3.0, 0.5), (1.1, 0.1)]):
        for interval in (1, 2, 3, 5):
            out.append({"id": f"p{i}.{interval}", "total": float(total), "dt": float(dt), "interval": interval,
                        "fps": 0 if (i + interval) % 4 == 0 else 5, "npz": (i + interval) % 3 != 0, "full": (i * interval) % 2 == 0})
    return out


def run_check(ctx):
    fam = family()
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump([{**p, "total": raw(p["total"]), "dt": raw(p["dt"])} for p in fam], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCRunLoop", env={"LATTICE": path, "PROP": ctx.prop})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    r = ctx.rng("behaviours")
    # every interleaving of the report parts prints the same outcomes
    beh = sorted({(o["cfg"], tuple(o["hist"])) for o in objs})
    n = ctx.n(120, 10 ** 6)
    chosen = beh if len(beh) <= n else r.sample(beh, n)
    by_id = {p["id"]: p for p in fam}

    def replay(q):
        cid, hist = chosen[q]
        rr = ctx.rng("replay", q)
        par = by_id[cid]
        dims = rr.choice([(2, 3, 2), (1, 1, 1), (3, 2, 1), (4, 2, 3), (1, 5, 2), (2, 2, 4)])
        rec = Recorder(f"b{q}", par, dims, rr.choice(["out", "sim_output", "my_step_9", "r.1"]))
        rec.plan, rec.r = list(hist), rr
        run(rec, config(rr, par, dims), ctx.sub(f"b{q}"))
        return rec.scenario()
    scen = core.pmap(replay, len(chosen))
    ctx.count(behaviours_generated=len(beh), behaviours_replayed=len(chosen))
    ctx.sample({"behaviour": chosen[0]})
    scen += real_runs(ctx, ctx.n(32, 200))
    if ctx.prop == "C29":
        scen += folders(ctx, ctx.n(150, 1500))
    for i in range(0, len(scen), 600):
        steps.judge(ctx, scen[i:i + 600], spec="RunTrace", tag=f"r{i}_")


def real_runs(ctx, n):
    """The command line entry point, with the real solver."""
    def one(i):
        r = ctx.rng("real", i)
        cfg, tab, ov, _ = gen.scenario(r, {"shapes": [(2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 1, 2)], "amg": 0.0})
        dims = cfg["reservoir"]["dimensions"]
        par = {"total": r.choice([3.0, 1.0, 0.5, 2.4]), "dt": r.choice([0.5, 0.3, 1.0, 0.1]), "interval": r.choice([1, 2, 4, 10]),
               "fps": r.choice([0, 4]), "npz": r.random() < .7, "full": r.random() < .4}
        if tab is not None:
            cfg["fluid"]["pvt"] = {"path": simdrv.pvt_file(tab, ctx.sub("pvt"))}
        c2 = config(r, par, dims)
        cfg["simulation"].update(c2["simulation"])
        if r.random() < .4:
            cfg["simulation"]["cg_max_iter"] = r.choice([1, 2, 4])
            cfg["simulation"]["cg_tolerance"] = 1e-10
        name = r.choice(["field", "case_step_3"])
        cfg["output_filename"] = name
        rec = Recorder(f"m{i}", par, dims, name)
        run(rec, cfg, ctx.sub(f"m{i}"), cli=True)
        return rec.scenario() if rec.init is not None else None      # None: no step at all was asked for
    out = [s for s in core.pmap(one, n) if s]
    ev = [e for s in out for e in s["ev"] if e["k"] == "step"]
    ctx.count(real_runs=n, real_steps=len(ev), real_failed_steps=sum(not e["ok"] for e in ev))
    return out


def folders(ctx, n):
    """create_animation on folders of pictures and other files."""
    from utils import create_animation

    def one(i):
        r = ctx.rng("folder", i)
        d = ctx.sub(f"folder{i}")
        nums = r.sample(range(1, 120), r.choice([0, 1, 2, 3, 5, 9, 12]))
        names = {}
        for k in nums:
            names[r.choice(["sim", "a", "zz_step_4", "M-1"]) + f"_step_{k}.png"] = k
        for k in r.sample(range(1, 120), 3):
            if r.random() < .5:
                names[r.choice([f"x_step_{k}.png.bak", f"x_step_{k}a.png", f"final_{k}.png", f"y_step_{k}_final.png", f"z_step{k}.png"])] = k
        order = list(names)
        r.shuffle(order)
        for f in order:
            png(os.path.join(d, f), names[f]) if f.endswith(".png") else open(os.path.join(d, f), "w").close()
        rec = Recorder(f"d{i}", {"total": 1.0, "dt": 1.0, "interval": 1, "fps": 0, "npz": False, "full": False}, (1, 1, 1), "x")
        gif, fps = os.path.join(d, "anim.gif"), r.choice([1, 2, 5, 10])
        try:
            with simdrv.quiet():
                create_animation(d, gif, fps) if r.random() < .5 else create_animation(image_folder=d, output_path=gif, fps=fps)
            made = os.path.exists(gif)
            f, ms = frames(gif) if made else ([], 0.0)
            if len(f) == 1:      # a single picture has no frame time
                ms = 1000 / fps
            rec.ev.append({"k": "folder", "numbers": sorted(nums), "made": made, "frames": f, "ms": raw(ms), "fps": fps})
        except Exception as ex:
            rec.ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
        rec.init = {"P": [], "sw": [], "sg": [], "so": [], "mass": {"none": 0}}
        return rec.scenario()
    ctx.count(folders=n)
    return core.pmap(one, n)
