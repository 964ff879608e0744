"""C23, C24: the algebraic multigrid solver (Amg.tla)."""
import json
import os

import numpy as np
import torch
import warnings

import core
import simdrv
import steps
import tlc
from enc import raw


warnings.filterwarnings("ignore", message="Sparse CSR")


class System:
    def __init__(self, n, entries, x):
        """entries: {(i, j): value}; x: the solution."""
        self.n = n
        self.A = np.zeros((n, n))
        keys = sorted(entries)
        for i, j in keys:
            self.A[i, j] = entries[i, j]
        self.ptr = [0] * (n + 1)
        for i, _ in keys:
            self.ptr[i + 1] += 1
        self.ptr = list(np.cumsum(self.ptr))
        self.col = [j for _, j in keys]
        self.val = [float(entries[k]) for k in keys]
        self.b = self.A @ np.asarray(x)
        self.sol = np.linalg.solve(self.A, self.b)

    def csr(self, dtype=torch.float64):
        return torch.sparse_csr_tensor(torch.tensor(self.ptr), torch.tensor(self.col), torch.tensor(self.val, dtype=dtype), size=(self.n, self.n))

    def coo(self, dtype=torch.float64):
        rows = np.repeat(np.arange(self.n), np.diff(self.ptr))
        return torch.sparse_coo_tensor(torch.tensor(np.stack([rows, self.col])), torch.tensor(self.val, dtype=dtype), size=(self.n, self.n))

    def rounded(self):
        """The same system with the matrix and the right-hand side in single precision."""
        s = object.__new__(System)
        s.n, s.ptr, s.col = self.n, self.ptr, self.col
        s.A = self.A.astype(np.float32).astype(np.float64)
        s.val = [float(np.float32(v)) for v in self.val]
        s.b = self.b.astype(np.float32).astype(np.float64)
        s.sol = np.linalg.solve(s.A, s.b)
        return s

    def doc(self):
        rows = [[[c + 1, raw(v)] for c, v in zip(self.col[a:b], self.val[a:b])] for a, b in zip(self.ptr, self.ptr[1:])]
        return {"m": {"n": self.n, "rows": rows}, "b": [raw(v) for v in self.b], "sol": [raw(v) for v in self.sol]}


def grid(dims, order=None):
    nx, ny, nz = dims
    num = lambda i, j, k: (i * ny + j) * nz + k
    e = []
    for i in range(nx):
        for j in range(ny):
            for k in range(nz):
                for d in ((1, 0, 0), (0, 1, 0), (0, 0, 1)):
                    q = (i + d[0], j + d[1], k + d[2])
                    if q[0] < nx and q[1] < ny and q[2] < nz:
                        a, b = num(i, j, k), num(*q)
                        e.append((order[a], order[b]) if order else (a, b))
    return nx * ny * nz, e


def system(r, n, edges, scale, kind):
    """A matrix of the pressure equation: symmetric, off-diagonals negative, row sums positive."""
    spread = {"smooth": 0.1, "rough": 1.5, "layered": 0.3}[kind]
    ent = {(i, i): 0.0 for i in range(n)}
    for a, b in edges:
        t = scale * 10 ** r.uniform(-spread, spread)
        if kind == "layered" and (a + b) % 3 == 0:
            t *= 1e-3
        if r.random() < 0.04:
            t = 0.0
        ent[a, b] = ent[b, a] = -t
        ent[a, a] += t
        ent[b, b] += t
    acc = 10 ** r.uniform(-3.5, 0.5)
    for i in range(n):
        ent[i, i] += scale * acc * r.uniform(.3, 3)
        if r.random() < 0.1:
            ent[i, i] += scale * 10 ** r.uniform(-1, 2)       # a well
    x = [r.uniform(-1, 1) for _ in range(n)] if r.random() < .5 else [1 + r.uniform(-.2, .2) for _ in range(n)]
    big = 10 ** r.choice([0, 0, 7])
    return System(n, ent, [v * big for v in x])


def group(r, dims_list):
    """Systems with much in common: graph, size, number of entries."""
    dims = r.choice(dims_list)
    n, e = grid(dims)
    kind = r.choice(["smooth", "rough", "layered"])
    s0 = r.choice([1e-12, 1e-9, 1e-7, 1e-3, 1.0, 1e4])
    out = [system(r, n, e, s0, kind), system(r, n, e, s0 * r.choice([1, .1, 30]), r.choice(["smooth", "rough"]))]
    if r.random() < .5:          # across the scaling threshold
        out.append(system(r, n, e, r.choice([1e-12, 1e-6, 1e3]), kind))
    perm = list(range(n))
    r.shuffle(perm)
    out.append(system(r, *grid(dims, perm), s0, kind))      # as many cells and entries, another graph
    nx, ny, nz = dims
    out.append(system(r, *grid((nz, nx, ny)), s0, kind))
    return out


def options(r, n, k):
    out = []
    for _ in range(k):
        c = r.choice([1, 2, 3, max(1, n // 2), n, 200])
        out.append({"theta": r.choice([0.25, 0.25, 0.1, 0.5]), "max_levels": r.choice([10, 2, 3]), "coarsest": c,
                    "tol": r.choice([1e-4, 1e-6, 1e-6, 1e-9]), "cycles": r.choice([1, 3, 20, 60])})
    return out


def odoc(o):
    return {**o, "theta": raw(o["theta"]), "tol": raw(o["tol"])}


def rows_of(M):
    M = M.to_dense() if M.layout == torch.sparse_coo else M
    if M.layout == torch.sparse_csr:
        p, c, v = (x.cpu().numpy() for x in (M.crow_indices(), M.col_indices(), M.values()))
        return [[[int(c[q]) + 1, raw(v[q])] for q in range(p[i], p[i + 1])] for i in range(M.size(0))]
    d = M.cpu().numpy()
    return [[[j + 1, raw(d[i, j])] for j in range(d.shape[1]) if d[i, j] != 0] for i in range(d.shape[0])]


def levels(amg):
    out = []
    for lv in amg.levels:
        P = lv["P"]
        out.append({"A": {"n": lv["A"].size(0), "rows": rows_of(lv["A"])},
                    "P": [{"n": P.size(0), "m": P.size(1), "rows": rows_of(P)}] if P is not None else [], "last": bool(lv["is_coarsest"]),
                    "pts": [int(c) + 1 for c in lv["coarse_nodes"]] if P is not None and lv.get("coarse_nodes") is not None else []})
    return out


def vec(x):
    return [raw(v) for v in x.detach().cpu().numpy().astype(np.float64).reshape(-1)]


def solve_history(sid, systems, opts, hist, r):
    """amg_solve on (system, options, form) in turn."""
    from solver.pressure_amg import amg_solve
    ev = []
    docs = list(systems)
    single = {}
    try:
        for h in hist:
            i, o = h["s"] - 1, opts[h["o"] - 1]
            form = r.choice(["csr", "coo", "single", "plain"])
            s, k = systems[i], i
            if form == "single":
                if i not in single:
                    single[i] = len(docs)
                    docs.append(s.rounded())
                k = single[i]
                s = docs[k]
            dt = torch.float32 if form == "single" else torch.float64
            A = s.coo(dt) if form == "coo" else s.csr(dt)
            kw = dict(tol=o["tol"], max_cycles=o["cycles"], theta=o["theta"], max_levels=o["max_levels"], coarsest_size=o["coarsest"], device="cpu")
            b = torch.tensor(s.b, dtype=dt)
            with simdrv.quiet():
                x, conv = amg_solve(A, b, return_converged=True, **kw)
            assert x.dtype == dt
            ev.append({"k": "solve", "s": k + 1, "o": h["o"], "x": vec(x), "conv": bool(conv), "single": form == "single"})
    except Exception as ex:
        ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
    return {"id": sid, "systems": [s.doc() for s in docs], "options": [odoc(o) for o in opts], "ev": ev}


def hierarchy_history(sid, systems, o, r, updates):
    """One ClassicalAMG object, moved from system to system of the same graph."""
    from solver.classical_amg import ClassicalAMG
    ev = []
    same = [i for i, s in enumerate(systems) if s.ptr == systems[0].ptr and s.col == systems[0].col]
    try:
        with simdrv.quiet():
            i = r.choice(same)
            amg = ClassicalAMG(systems[i].csr(), theta=o["theta"], max_levels=o["max_levels"], coarsest_size=o["coarsest"],
                               nullspace_blend=r.choice([0.6, 0.0, 1.0]), nullspace_dim=r.choice([3, 1, 0, 4]))
            for q in range(updates + 1):
                if q:
                    i = r.choice(same)
                    amg.update_matrix(systems[i].csr() if r.random() < .6 else systems[i].coo())
                s = systems[i]
                ev.append({"k": "update" if q else "build", "s": i + 1, "o": 1, "levels": levels(amg)})
                b = torch.tensor(s.b)
                x = None
                xs = [torch.zeros(s.n, dtype=torch.float64)]
                if r.random() < .4:
                    xs = [torch.tensor([r.uniform(-1, 1) * abs(s.sol).max() for _ in range(s.n)], dtype=torch.float64)]
                for _ in range(3):
                    xs.append(amg.solve(b, x0=xs[-1], tol=0.0, max_iter=1))
                ev.append({"k": "cycle", "s": i + 1, "xs": [vec(x) for x in xs]})
                if r.random() < .7:
                    v = torch.tensor([r.uniform(-1, 1) for _ in range(s.n)], dtype=torch.float64) if r.random() < .5 else b
                    cyc = r.choice([1, 1, 2, 3])
                    z, z2 = amg.apply(v, cycles=cyc), amg.apply(2 * v, cycles=cyc)
                    y = [amg.solve(v, tol=0.0, max_iter=m) for m in range(cyc, max(cyc, 8) + 1)]
                    ev.append({"k": "apply", "s": i + 1, "r": vec(v), "z": vec(z), "twice": vec(z2), "xs": [vec(x) for x in y]})
                x = amg.solve(b, tol=o["tol"], max_iter=o["cycles"])
                ev.append({"k": "solve", "s": i + 1, "o": 1, "x": vec(x), "conv": bool(amg.converged), "single": False})
    except Exception as ex:
        ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
    return {"id": sid, "systems": [s.doc() for s in systems], "options": [odoc(o)], "ev": ev}


def prec_history(sid, systems, o, r):
    """Preconditioners made for several systems, used in turn."""
    from solver.pressure_amg import amg_preconditioner
    ev, made = [], {}
    try:
        for _ in range(4):
            i = r.randrange(len(systems))
            s = systems[i]
            if i not in made or r.random() < .2:
                try:
                    with simdrv.quiet():
                        made[i] = amg_preconditioner(r.choice([s.csr, s.coo])(), theta=o["theta"], max_levels=o["max_levels"],
                                                     coarsest_size=o["coarsest"], device="cpu")["apply"]
                except RuntimeError:
                    made[i] = None
                ev.append({"k": "prec", "s": i + 1, "o": 1, "ok": made[i] is not None})
            if made[i] is None:
                continue
            kind = r.choice(["const", "ramp", "free", "rhs"])
            v = {"const": [1.0] * s.n, "ramp": list(np.linspace(0, 1, s.n)), "free": [r.uniform(-1, 1) for _ in range(s.n)], "rhs": list(s.b)}[kind]
            v = torch.tensor(v, dtype=torch.float64)
            with simdrv.quiet():
                z, z2, z3 = made[i](v), made[i](2 * v), made[i](v)
            ev.append({"k": "use", "s": i + 1, "r": vec(v), "z": vec(z), "twice": vec(z2), "again": vec(z3), "tested": kind in ("const", "ramp")})
    except Exception as ex:
        ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
    return {"id": sid, "systems": [s.doc() for s in systems], "options": [odoc(o)], "ev": ev}


SMALL = [(3, 1, 1), (4, 1, 1), (2, 2, 1), (1, 1, 3), (5, 1, 1), (1, 4, 1)]
LARGE = [(4, 3, 1), (3, 3, 2), (6, 1, 1), (5, 4, 1), (2, 2, 3), (3, 4, 2), (12, 1, 1), (1, 3, 4), (2, 3, 1)]


def amg_check(ctx):
    import solver.classical_amg, solver.pressure_amg  # noqa
    prop = ctx.prop
    torch.manual_seed(ctx.seed)
    lat = []
    for i in range(ctx.n(10, 40)):
        r = ctx.rng("lattice", i)
        sys_ = group(r, SMALL)[:3]
        opts = [{"theta": .25, "max_levels": 10, "coarsest": 1, "tol": 1e-6, "cycles": 4},
                {"theta": .5, "max_levels": 10, "coarsest": r.choice([1, 200]), "tol": 1e-4, "cycles": 2}]
        lat.append((f"g{i}", sys_, opts))
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump([{"id": i, "systems": [s.doc() for s in ss], "options": [odoc(o) for o in oo]} for i, ss, oo in lat], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCAmg", env={"LATTICE": path, "DEPTH": str(ctx.n(2, 3))})
    if bad:
        raise tlc.Machinery(f"the specification itself breaks {prop}: " + bad)
    ctx.states += dist
    ctx.transitions += trans
    beh = sorted({(o["cfg"], json.dumps(o["hist"])) for o in objs})
    by = {i: (ss, oo) for i, ss, oo in lat}
    chosen = beh if len(beh) <= ctx.n(400, 4000) else ctx.rng("behaviours").sample(beh, ctx.n(400, 4000))
    ctx.count(behaviours_generated=len(beh))
    scen = []
    if prop == "C24":
        def replay(q):
            c, h = chosen[q]
            torch.manual_seed(q + 1)
            return solve_history(f"b{q}", *by[c], json.loads(h), ctx.rng("form", q))

        def one(i):
            r = ctx.rng("solves", i)
            torch.manual_seed(10 ** 6 + i)
            ss = group(r, LARGE + SMALL)
            oo = options(r, ss[0].n, 3)
            hist = [{"s": r.randrange(len(ss)) + 1, "o": r.randrange(3) + 1} for _ in range(6)]
            return solve_history(f"r{i}", ss, oo, hist, r)
        def prec(i):
            r = ctx.rng("prec", i)
            torch.manual_seed(3 * 10 ** 6 + i)
            ss = group(r, LARGE + SMALL)
            return prec_history(f"p{i}", ss, options(r, ss[0].n, 1)[0], r)
        scen += core.pmap(replay, len(chosen)) + core.pmap(one, ctx.n(150, 2500)) + core.pmap(prec, ctx.n(100, 1500))
        ctx.count(behaviours_replayed=len(chosen))

    def obj(i):
        r = ctx.rng("object", i)
        torch.manual_seed(2 * 10 ** 6 + i)
        ss = group(r, LARGE + SMALL)
        o, = options(r, ss[0].n, 1)
        if o["coarsest"] >= ss[0].n and r.random() < .7:
            o["coarsest"] = r.choice([1, 2, 4])
        return hierarchy_history(f"h{i}", ss, o, r, r.choice([0, 1, 2]))
    scen += core.pmap(obj, ctx.n(150, 2500))
    ev = [e for s in scen for e in s["ev"]]
    ctx.count(**{"events_" + k: sum(e["k"] == k for e in ev) for k in ("solve", "build", "update", "cycle", "apply", "prec", "use")},
              converged=sum(e["k"] == "solve" and e["conv"] for e in ev))
    ctx.sample({"behaviour": chosen[0]})
    for i in range(0, len(scen), 900):
        steps.judge(ctx, scen[i:i + 900], spec="AmgTrace", tag=f"a{i}_")
