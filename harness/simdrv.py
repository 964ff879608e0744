"""Drives the real simulator and records what the specification calls the observable state."""
import contextlib
import io
import os
import sys

os.environ["OIL_SIM_TRACE"] = "1"
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "src"))

import numpy as np
import torch

torch.set_num_threads(1)
DEV = torch.device("cpu")

import json
from enc import raw, arr, doc


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        yield


def f32(vals, dims):
    return torch.tensor(np.asarray(vals, dtype=np.float32).reshape(tuple(dims)))


def pvt_file(table, scratch):
    """Writes a PVT table under a name derived from its content."""
    import hashlib
    text = json.dumps(table)
    path = os.path.join(scratch, "pvt_" + hashlib.sha1(text.encode()).hexdigest()[:16] + ".json")
    if not os.path.exists(path):
        with open(f"{path}.{os.getpid()}", "w") as f:
            f.write(text)
        os.replace(f.name, path)
    return path


class Run:
    """One simulator built from configuration documents, recorded as a scenario."""

    def __init__(self, sid, cfg, pvt=None, ov=None, scratch=".", phys=True, res=None):
        from simulator.reservoir import Reservoir
        from simulator.fluid import Fluid
        from simulator.well import WellManager
        from simulator.simulation import Simulator
        from simulator import step_trace
        self.step_trace = step_trace
        self.sid, self.cfg, self.pvt, self.ov, self.phys = sid, cfg, pvt, ov or {}, phys
        ov = self.ov
        with quiet():
            self.res = res if res is not None else Reservoir(cfg["reservoir"], device=DEV)
            dims = self.res.dimensions
            for key, attr in (("kx", "permeability_x"), ("ky", "permeability_y"), ("kz", "permeability_z"),
                              ("pv", "porous_volume")):
                if key in ov:
                    setattr(self.res, attr, f32(ov[key], dims))
            self.wm = WellManager(cfg["wells"], self.res)
            fc = cfg["fluid"]
            if pvt is not None:
                fc = dict(fc)
                fc["pvt_path"] = pvt_file(pvt, scratch)
            self.fluid = Fluid(fc, self.res, device=DEV)
            for key, attr in (("P", "pressure"), ("sw", "s_w"), ("sg", "s_g")):
                if key in ov:
                    setattr(self.fluid, attr, f32(ov[key], dims))
            if "sw" in ov or "sg" in ov:
                self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
            self.fluid.prev_pressure = self.fluid.pressure.clone()
            self.fluid.prev_sw = self.fluid.s_w.clone()
            self.sim = Simulator(self.res, self.fluid, self.wm, cfg.get("simulation", {}), device=DEV)
        self.events = []
        self.init = self.state()

    def state(self):
        fl, s = self.fluid, self.sim
        mb, cb = s.mass_balance, s.component_balance
        return {
            "P": arr(fl.pressure), "sw": arr(fl.s_w), "sg": arr(fl.s_g), "so": arr(fl.s_o),
            "mass": {"win": raw(mb["water"]["in"]), "wout": raw(mb["water"]["out"]),
                     "oin": raw(mb["oil"]["in"]), "oout": raw(mb["oil"]["out"]),
                     "gin": raw(mb["gas"]["in"]), "gout": raw(mb["gas"]["out"])},
            "comp": {"oin": raw(cb["oil"]["in"]), "oout": raw(cb["oil"]["out"]),
                     "gin": raw(cb["gas"]["in"]), "gout": raw(cb["gas"]["out"]),
                     "oacc": raw(cb["oil"]["accum"]), "gacc": raw(cb["gas"]["accum"])},
            "diag": [{"q": [] if w.last_q_total is None else [raw(w.last_q_total)],
                      "mode": w.last_mode or "",
                      "surf": [raw(w.last_surface_rates[k]) for k in ("oil", "water", "gas", "liquid")]
                      if w.last_surface_rates else []}
                     for w in self.wm.get_wells()],
        }

    def step(self, dt, plan=None):
        """One run_step call; plan: outcomes forced on successive attempts (False = does not converge)."""
        self.events.append({"k": "call", "dt": raw(dt)})
        n0 = len(self.events)

        def sink(kind, sim, d):
            if sim is not self.sim:
                return
            e = {"k": kind, "dt": raw(float(d))}
            if kind == "sub":
                e["st"] = self.state()
            self.events.append(e)
            if len(self.events) > n0 + 1500:      # a step that never ends
                raise RuntimeError("more than 1500 attempts in one time step")

        self.step_trace.sink = sink
        self.step_trace.plan = list(plan or [])
        try:
            with quiet():
                ok = self.sim.run_step(dt)
        except Exception as ex:  # a step must not raise on a valid model
            self.events.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
            return None
        finally:
            self.step_trace.sink = None
            self.step_trace.plan = []
        if len(self.events) == n0 and ok:   # no instrumentation in the way: one attempt, accepted
            self.events.append({"k": "sub", "dt": raw(dt), "st": self.state()})
        self.events.append({"k": "ret", "ok": bool(ok), "st": self.state()})
        return bool(ok)

    def control(self, values):
        for w, v in zip(self.wm.get_wells(), values):
            w.control_value = float(v)
        self.events.append({"k": "ctl", "v": [raw(v) for v in values]})

    def place(self, P, sw, sg, same_objects=False):
        """The user puts other fields between two steps."""
        fl, d = self.fluid, self.res.dimensions
        for name, v in (("pressure", P), ("s_w", sw), ("s_g", sg)):
            v = f32(v, d)
            if same_objects:
                getattr(fl, name).copy_(v)
            else:
                setattr(fl, name, v)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        self.events.append({"k": "set", "P": arr(fl.pressure), "sw": arr(fl.s_w), "sg": arr(fl.s_g), "so": arr(fl.s_o)})

    def scenario(self):
        return {"id": self.sid, "cfg": doc(self.cfg), "pvt": [doc(self.pvt)] if self.pvt is not None else [],
                "ov": {k: [raw(x) for x in np.asarray(v, dtype=np.float32).astype(float).reshape(-1)]
                       for k, v in self.ov.items()} or {"none": 0},
                "init": self.init, "ev": self.events, "phys": self.phys}
