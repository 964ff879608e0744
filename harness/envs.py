"""C21, C22: episodes of the reinforcement-learning environment."""
import json
import os

import numpy as np

import core
import gen
import simdrv
import steps
import tlc
from enc import arr, doc, raw


class Episode:
    def __init__(self, sid, cfg, table, limit, dt, scratch, plan=None):
        self.sid, self.cfg, self.table, self.ev = sid, cfg, table, []
        self.par = {"limit": limit, "dt": raw(dt)}
        self.plan = plan
        c = json.loads(json.dumps(cfg))
        c.setdefault("simulation", {})["time_step_days"] = dt
        if table is not None:
            c["fluid"]["pvt_path"] = simdrv.pvt_file(table, scratch)
        self.path = os.path.join(scratch, f"env_{sid}.json".replace("/", "_"))
        with open(self.path, "w") as f:
            json.dump(c, f)
        self.env, self.action = None, None
        self.limit = limit

    def fld(self):
        fl = self.env.fluid
        return {"P": arr(fl.pressure), "sw": arr(fl.s_w), "sg": arr(fl.s_g), "so": arr(fl.s_o)}

    def ctl(self):
        return [raw(w.control_value) for w in self.env.well_manager.get_wells()]

    def guarded(self, fn):
        """fn() with the simulator steps it makes recorded"""
        from simulator.simulation import Simulator
        real = Simulator.run_step

        def spy(sim, dt):
            ctl = self.ctl()
            if self.plan is not None and self.plan and self.plan.pop(0) is False:
                ok = False
            else:
                ok = bool(real(sim, dt))
            self.ev.append({"k": "act", "a": [raw(x) for x in self.action], "ctl": ctl, "dt": raw(float(dt)), "ok": ok})
            return ok
        Simulator.run_step = spy
        try:
            with simdrv.quiet():
                return fn()
        except Exception as ex:
            self.ev.append({"k": "raise", "what": f"{type(ex).__name__}: {ex}"})
        finally:
            Simulator.run_step = real

    def make(self):
        from rl_env import ReservoirEnv
        self.env = self.guarded(lambda: ReservoirEnv(self.path, max_steps=self.limit, device=simdrv.DEV))
        if self.env is not None:
            self.ev.append({"k": "made", "ctl": self.ctl(), "fld": self.fld(),
                            "nobs": int(np.prod(self.env.observation_space.shape)), "nact": int(np.prod(self.env.action_space.shape))})
        return self.env is not None

    def reset(self):
        out = self.guarded(lambda: self.env.reset())
        if out is None:
            return False
        self.ev.append({"k": "reset", "ctl": self.ctl(), "fld": self.fld(), "obs": arr(out[0])})
        return True

    def step(self, action):
        self.action = np.asarray(action, dtype=np.float32)
        out = self.guarded(lambda: self.env.step(self.action))
        if out is None:
            return True
        obs, reward, term, trunc, info = out
        self.ev.append({"k": "step", "ctl": self.ctl(), "fld": self.fld(), "obs": arr(obs), "reward": raw(reward),
                        "terminated": bool(term), "truncated": bool(trunc), "converged": bool(info.get("converged", False))})
        return bool(term)

    def scenario(self):
        return {"id": self.sid, "cfg": doc(self.cfg), "pvt": [doc(self.table)] if self.table is not None else [],
                "par": self.par, "ev": self.ev}


THEME = {"pfield": 0, "hetero": 0, "nwells": [1, 2, 2, 3], "cuts": 0.0, "amg": 0.0, "rate": 0.3}


def document(r):
    cfg, table, _, _ = gen.scenario(r, THEME)
    f = cfg["fluid"]
    if r.random() < .6:
        swc = f["relative_permeability"]["sw_cr"]
        f["s_w"], f["s_g"] = round(swc + .15, 3), r.choice([0.0, 0.1])
    return cfg, table


def env_check(ctx):
    lat = []
    for i in range(ctx.n(5, 20)):
        r = ctx.rng("lattice", i)
        cfg, table = document(r)
        n = len(cfg["wells"])
        lat.append((f"e{i}", cfg, table, r.choice([1, 2, 3]), [[0.0] * n, [1.0] * n, [-1.0, 0.5, -0.25][:n] + [0.0] * (n - 3)]))
    path = os.path.join(ctx.scratch, "lattice.json")
    with open(path, "w") as f:
        json.dump([{"id": i, "cfg": doc(c), "pvt": [doc(t)] if t is not None else [], "limit": lim,
                    "acts": [[raw(x) for x in a] for a in acts], "soils": [raw(.5), raw(.3)]} for i, c, t, lim, acts in lat], f)
    objs, dist, trans, bad = tlc.check(ctx.scratch, "MCEnv", env={"LATTICE": path, "PROP": ctx.prop, "DEPTH": str(ctx.n(3, 4))})
    if bad:
        raise tlc.Machinery("the specification itself breaks " + ctx.prop + ": " + bad)
    ctx.states += dist
    ctx.transitions += trans
    beh = sorted({(o["cfg"], json.dumps(o["hist"])) for o in objs})
    r = ctx.rng("behaviours")
    chosen = beh if len(beh) <= ctx.n(250, 6000) else r.sample(beh, ctx.n(250, 6000))
    by = {x[0]: x for x in lat}
    scratch = ctx.sub("env")

    def replay(q):
        cid, hist = chosen[q][0], json.loads(chosen[q][1])
        _, cfg, table, lim, acts = by[cid]
        rr = ctx.rng("replay", q)
        e = Episode(f"b{q}", cfg, table, lim, rr.choice([0.1, 0.5, 1.0]), scratch)
        if e.make():
            for h in hist:
                if h["k"] == "reset":
                    e.reset()
                else:
                    e.plan = [h["ok"]]
                    e.step(acts[h["a"] - 1])
        return e.scenario()
    scen = core.pmap(replay, len(chosen))
    ctx.count(behaviours_generated=len(beh), behaviours_replayed=len(chosen))
    ctx.sample({"behaviour": chosen[0]})

    def one(i):
        rr = ctx.rng("episode", i)
        cfg, table = document(rr)
        lim = rr.choice([2, 3, 5, 365])
        e = Episode(f"r{i}", cfg, table, lim, rr.choice([0.01, 0.2, 1.0, 3.0]), scratch,
                    plan=[rr.random() < .85 for _ in range(12)] if rr.random() < .4 else None)
        if e.make():
            if rr.random() < .9:
                e.reset()
            for _ in range(rr.choice([2, 4, 7])):
                over = e.step([rr.choice([0.0, 1.0, -1.0, rr.uniform(-1, 1)]) for _ in cfg["wells"]])
                if (over and rr.random() < .8) or rr.random() < .1:
                    e.reset()
        return e.scenario()
    scen += core.pmap(one, ctx.n(250, 4000))
    ev = [e for s in scen for e in s["ev"]]
    ctx.count(environment_steps=sum(e["k"] == "step" for e in ev), failed_steps=sum(e["k"] == "step" and not e["converged"] for e in ev),
              resets=sum(e["k"] == "reset" for e in ev))
    for i in range(0, len(scen), 800):
        steps.judge(ctx, scen[i:i + 800], spec="EnvTrace", tag=f"e{i}_")
