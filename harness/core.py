"""Shared by all checks: scratch space, seeds, verdicts, known findings, evidence."""
import hashlib
import json
import os
import random
import shutil
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.json")


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"oilsim-{prop}-")
        self.violations = []           # (what, detail)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.notes = {}
        self.known = [k for k in json.load(open(KNOWN))["findings"] if k["property"] == prop]
        self.known_hit = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def rng(self, *salt):
        return random.Random(f"{self.seed}/{self.prop}/" + "/".join(map(str, salt)))

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def sub(self, name):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        return d

    def sample(self, x):
        if len(self.samples) < 6:
            s = x if isinstance(x, str) else json.dumps(x, default=str)
            self.samples.append(s[:1200])

    def count(self, **kw):
        for k, v in kw.items():
            self.notes[k] = self.notes.get(k, 0) + v

    def fail(self, what, key=None, detail=None):
        """key: identifies the input, for known findings."""
        for k in self.known:
            if key is not None and k["key"] == key:
                self.known_hit[k["key"]] = k["what"]
                return
        self.violations.append({"what": what, "key": key, "detail": detail})

    def finish(self, level):
        shutil.rmtree(self.scratch, ignore_errors=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["(none)"], **self.notes}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what in self.known_hit.values():
            print(f"KNOWN-FINDING: property={self.prop} {what}")
        if not self.violations:
            print(f"{self.prop}: held ({self.states} states, {self.traces} traces, {ev['wall_s']} s)")
            return 0
        out = os.path.join(VERIF, "build", "replay")
        os.makedirs(out, exist_ok=True)
        seen = set()
        for v in self.violations[:20]:
            print("  " + v["what"][:400])
        blob = json.dumps(self.violations[:20], default=str, indent=1)
        path = os.path.join(out, f"{self.prop}-{hashlib.sha1(blob.encode()).hexdigest()[:10]}.json")
        with open(path, "w") as f:
            f.write(blob)
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1


_JOB = None


def _call(i):
    return _JOB(i)


def pmap(fn, n, fresh=False):
    """[fn(0), ..., fn(n-1)] in forked processes; fresh: one process each."""
    import multiprocessing as mp
    global _JOB
    k = min(os.cpu_count() or 4, 8, n)
    if k <= 1 and not fresh:
        return [fn(i) for i in range(n)]
    _JOB = fn
    with mp.get_context("fork").Pool(max(k, 1), maxtasksperchild=1 if fresh else None) as pool:
        return pool.map(_call, range(n), chunksize=1 if fresh else max(1, n // (k * 8)))
