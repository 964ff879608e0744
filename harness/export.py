"""C28: exports for visualisation.  Histories of MCExport and random ones are run on the real writers;
cell files are parsed back, the point file of a run is written through stand-ins for the VTK modules."""
import os
import re
import struct
import sys
import types

import numpy as np
import torch

import core
import gen
import simdrv
import steps
import tlc
from enc import arr, raw


def read_vtr(path):
    """A rectilinear grid file as written by pyevtk (raw appended data)."""
    b = open(path, "rb").read()
    head, _, body = b.partition(b'<AppendedData encoding="raw">')
    head = head.decode()
    body = body[body.index(b"_") + 1:]
    order = "<" if 'byte_order="LittleEndian"' in head else ">"
    hs = 8 if 'header_type="UInt64"' in head else 4
    ext = [int(x) for x in re.search(r'<Piece Extent="([^"]*)"', head).group(1).split()]
    types_ = {"Float64": "f8", "Float32": "f4", "Int32": "i4", "Int64": "i8"}
    out = {"dims": [ext[1] - ext[0], ext[3] - ext[2], ext[5] - ext[4]], "A": {}}
    section = None
    for m in re.finditer(r"<(Coordinates|CellData|PointData)|<DataArray ([^>]*?)/?>", head):
        if m.group(1):
            section = m.group(1)
            continue
        a = dict(re.findall(r'(\w+)="([^"]*)"', m.group(2)))
        o = int(a["offset"])
        n = struct.unpack(order + ("Q" if hs == 8 else "I"), body[o:o + hs])[0]
        v = np.frombuffer(body[o + hs:o + hs + n], dtype=order + types_[a["type"]]).astype(float)
        if section == "Coordinates":
            out[a["Name"][0]] = [raw(x) for x in v]
        elif section == "CellData":
            out["A"][a["Name"]] = [raw(x) for x in v]
    return out


def stand_ins(record):
    """Modules that look like vtk and record what a writer was given."""
    class Arr:
        def __init__(self, v):
            self.v, self.name = np.array(v, dtype=float).reshape(-1), ""

        def SetName(self, n):
            self.name = n

    class Points:
        def __init__(self):
            self.p = []

        def SetNumberOfPoints(self, n):
            self.p = [None] * n

        def InsertNextPoint(self, *a):
            self.p.append([int(x) for x in (a[0] if len(a) == 1 else a)])

        def SetPoint(self, q, *a):
            self.p[q] = [int(x) for x in (a[0] if len(a) == 1 else a)]

        InsertPoint = SetPoint

        def SetData(self, a):
            self.p = [[int(x) for x in row] for row in a.v.reshape(-1, 3)]

    class Data:
        def __init__(self):
            self.a = {}

        def AddArray(self, a):
            self.a[a.name] = a.v

        SetScalars = AddArray

    class Grid:
        def __init__(self):
            self.d, self.pts, self.pd = (0, 0, 0), Points(), Data()

        def SetDimensions(self, *a):
            self.d = tuple(int(x) for x in (a[0] if len(a) == 1 else a))

        def SetPoints(self, p):
            self.pts = p

        def GetPointData(self):
            return self.pd

    class Writer:
        def SetFileName(self, n):
            self.n = n

        def SetInputData(self, g):
            self.g = g

        def __getattr__(self, name):
            if name.startswith("Set"):
                return lambda *a: None
            raise AttributeError(name)

        def Write(self):
            record[self.n] = {"dims": list(self.g.d), "pts": self.g.pts.p, "A": {k: [raw(x) for x in v] for k, v in self.g.pd.a.items()} or {"none": 0}}
            open(self.n, "w").close()
            return 1
    vtk = types.ModuleType("vtk")
    vtk.vtkStructuredGrid, vtk.vtkPoints, vtk.vtkXMLStructuredGridWriter = Grid, Points, Writer
    m, u, ns = types.ModuleType("vtkmodules"), types.ModuleType("vtkmodules.util"), types.ModuleType("vtkmodules.util.numpy_support")
    ns.numpy_to_vtk = lambda v, *a, **k: Arr(v)
    m.util, u.numpy_support = u, ns
    return {"vtk": vtk, "vtkmodules": m, "vtkmodules.util": u, "vtkmodules.util.numpy_support": ns}


class Rec:
    def __init__(self, sid, r, root):
        from simulator.fluid import Fluid
        from simulator.reservoir import Reservoir
        self.sid, self.r, self.root, self.ev = sid, r, root, []
        self.dims = r.choice([(1, 1, 1), (2, 3, 1), (2, 1, 3), (3, 2, 2), (1, 4, 2), (4, 2, 3), (2, 2, 2), (5, 1, 1), (3, 3, 3)])
        self.size = [r.choice([10.0, 20.0, r.uniform(.5, 50)]) for _ in range(3)]
        self.res_cfg = {"dimensions": list(self.dims), "grid_size": self.size, "permeability": r.uniform(1, 500), "k_vertical_fraction": r.choice([.1, 1.0])}
        self.fl_cfg = gen.fluid(r, {})
        with simdrv.quiet():
            self.res = Reservoir(self.res_cfg, device=simdrv.DEV)
            self.fl = Fluid(self.fl_cfg, self.res, device=simdrv.DEV)
        self.hetero = r.random() < .7
        if self.hetero:
            for a in ("permeability_x", "permeability_z"):
                setattr(self.res, a, self.field(1e-15, 1e-12))
        self.init = self.state()

    def field(self, a, b):
        return simdrv.f32([self.r.uniform(a, b) for _ in range(int(np.prod(self.dims)))], self.dims)

    def state(self):
        fl = self.fl
        return {"P": arr(fl.pressure), "sw": arr(fl.s_w), "sg": arr(fl.s_g), "so": arr(fl.s_o),
                "kx": arr(self.res.permeability_x), "kz": arr(self.res.permeability_z)}

    def change(self):
        fl, r = self.fl, self.r
        fl.pressure = self.field(1e6, 5e7)
        fl.s_w = self.field(.2, .5)
        fl.s_g = self.field(0, .3) if r.random() < .6 else torch.zeros(self.dims)
        fl.s_o = 1.0 - fl.s_w - fl.s_g
        if r.random() < .3:       # a field stored in another memory order
            for a in ("pressure", "s_w", "s_o"):
                setattr(fl, a, getattr(fl, a).permute(2, 1, 0).contiguous().permute(2, 1, 0))
        self.ev.append({"k": "change", "st": self.state()})

    def save(self, name):
        from output.vtk_writer import save_to_vtk
        old = os.getcwd()
        os.chdir(self.root)
        try:
            with simdrv.quiet():
                save_to_vtk(self.res, self.fl, name) if self.r.random() < .5 else save_to_vtk(reservoir=self.res, fluid=self.fl, filename=name)
            d = {f[:-4]: read_vtr(os.path.join("results", f)) for f in os.listdir("results") if f.endswith(".vtr")}
            self.ev.append({"k": "save", "name": name, "after": self.state(), "dir": d or {"none": 0}})
        except Exception as ex:
            self.ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
        finally:
            os.chdir(old)

    def run(self, vtk):
        import matplotlib.figure
        from simulator.simulation import Simulator
        from simulator.well import WellManager
        with simdrv.quiet():
            sim = Simulator(self.res, self.fl, WellManager([], self.res), {"total_time_days": 1.0, "time_step_days": 1.0, "save_interval": 10, "animation_fps": 0}, device=simdrv.DEV)

        def step(dt):
            fl = sim.fluid
            fl.pressure = self.field(1e6, 5e7)
            fl.s_w = self.field(.2, .5)
            fl.s_o = 1.0 - fl.s_w - fl.s_g
            return True
        sim.run_step = step
        record, names = {}, ["vtk", "vtkmodules", "vtkmodules.util", "vtkmodules.util.numpy_support"]
        kept = {k: sys.modules.get(k) for k in names}
        fig, cwd = matplotlib.figure.Figure.savefig, os.getcwd()
        matplotlib.figure.Figure.savefig = lambda f, fname, *a, **k: open(fname, "w").close()
        d = os.path.join(self.root, f"run{len(self.ev)}")
        os.makedirs(d)
        os.chdir(d)
        try:
            sys.modules.update(stand_ins(record) if vtk else {k: None for k in names})
            with simdrv.quiet():
                sim.run("case", True)
            have = [os.path.join(b, f) for b, _, fs in os.walk(d) for f in fs]
            vts = [p for p in have if p.endswith("case.vts")]
            made = len(vts) == 1 and len(record) == 1
            self.ev.append({"k": "run", "vtk": vtk, "made": made, "after": self.state(),
                            "whole": all(any(p.endswith(x) for p in have) for x in ("case.txt", "case_final.png", "case.npz")),
                            "r": list(record.values())[0] if made else {"none": 0}})
        except Exception as ex:
            self.ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
        finally:
            os.chdir(cwd)
            matplotlib.figure.Figure.savefig = fig
            for k, v in kept.items():
                sys.modules.pop(k, None)
                if v is not None:
                    sys.modules[k] = v

    def scenario(self):
        return {"id": self.sid, "dims": list(self.dims), "d": [raw(float(x)) for x in np.float32(self.size)], "init": self.init, "ev": self.ev}


def export_check(ctx):
    depth = ctx.n(4, 6)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCExport", env={"PROP": ctx.prop, "DEPTH": str(depth)})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    hists = sorted(tuple(o["hist"]) for o in objs)

    def one(q):
        r = ctx.rng("replay", q)
        rec = Rec(f"h{q}", r, ctx.sub(f"h{q}"))
        names = {"a": r.choice(["a", "simulation_results", "my.case"]), "b": "b_2"}
        for a in hists[q]:
            rec.change() if a == "change" else rec.save(names[a])
        return rec.scenario()
    scen = [one(q) for q in range(len(hists))]

    def two(q):
        r = ctx.rng("run", q)
        rec = Rec(f"r{q}", r, ctx.sub(f"r{q}"))
        rec.run(q % 4 != 3)
        if r.random() < .5:
            rec.save("x")
        rec.run(True)
        return rec.scenario()
    scen += [two(q) for q in range(ctx.n(30, 300))]
    ctx.count(histories_generated=len(objs), histories_replayed=len(hists), runs=ctx.n(60, 600))
    ctx.sample({"history": hists[0]})
    for i in range(0, len(scen), 400):
        steps.judge(ctx, scen[i:i + 400], spec="ExportTrace", tag=f"x{i}_")
