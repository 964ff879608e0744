"""Runs TLC: trace validation (sharded over processes) and model checking."""
import fcntl
import json
import os
import re
import shutil
import subprocess
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = os.environ.get("VERIF_TLA", "/opt/veriftools/tla")
JARS = [os.path.join(TLA, "tla2tools.jar"), os.path.join(TLA, "CommunityModules-deps.jar")]
SPEC = os.path.join(VERIF, "spec")


class Machinery(Exception):
    """The checking machinery failed (not a verdict)."""


def classes(scratch):
    """Compiles java/FP.java once per run, into the scratch directory."""
    out = os.path.join(scratch, "classes")
    if not os.path.exists(os.path.join(out, "FP.class")):
        os.makedirs(out, exist_ok=True)
        p = subprocess.run(["javac", "-cp", JARS[0], "-d", out, os.path.join(VERIF, "java", "FP.java")],
                           capture_output=True, text=True)
        if p.returncode:
            raise Machinery("javac: " + p.stderr)
    return out


def command(scratch, arith, spec, cfg, meta, workers, heap, extra=()):
    cp = ":".join(JARS + [classes(scratch)])
    gc = "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC"
    return ["java", gc, "-XX:TieredStopAtLevel=4", f"-Xmx{heap}", "-Xss64m", "-cp", cp,
            f"-DTLA-Library={SPEC}/{arith}:{SPEC}", "tlc2.TLC", "-noGenerateSpecTE", "-nowarning",
            "-metadir", meta, "-workers", str(workers), *extra,
            "-config", os.path.join(SPEC, cfg or spec + ".cfg"), os.path.join(SPEC, spec + ".tla")]


def parse(text):
    """-> (objects printed with PrintT(ToJson(...)), states, distinct, finished, error text)"""
    objs, rest = [], []
    for line in text.splitlines():
        if line.startswith('"{') and line.endswith('}"'):
            objs.append(json.loads(json.loads(line)))
        else:
            rest.append(line)
    text = "\n".join(rest)          # what the code raised is not TLC's error
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", text)
    gen, dist, left = map(int, m[-1]) if m else (0, 0, -1)
    err = None
    if "Error:" in text or "Exception" in text:
        i = text.find("Error:")
        err = text[max(0, i - 200):i + 3000]
    return objs, gen, dist, left == 0, err


def run_many(jobs, env, timeout):
    """jobs: list of (cmd, env additions, cwd); runs them together; returns outputs."""
    procs = []
    for i, (cmd, extra, cwd) in enumerate(jobs):
        os.makedirs(cwd, exist_ok=True)
        out = open(os.path.join(cwd, f"tlc{i}.out"), "w")
        procs.append((subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, cwd=cwd,
                                       env={**env, **extra}), out))
    end = time.time() + timeout
    texts = []
    for p, out in procs:
        try:
            p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            for q, _ in procs:
                q.kill()
            raise Machinery(f"TLC timed out after {timeout} s")
        out.close()
        texts.append(open(out.name).read())
    return texts


def validate(scratch, scenarios, prop, spec="Trace", shards=None, timeout=800, tag="t", arith="ival", env=None):
    """Every scenario against spec; -> (fails, states, transitions).  Fails carry the scenario id."""
    if not scenarios:
        return [], 0, 0
    shards = shards or max(1, min(os.cpu_count() or 4, 8, (len(scenarios) + 3) // 4))
    ids = [s["id"] for s in scenarios]
    assert len(set(ids)) == len(ids), "scenario ids must be distinct"
    jobs = []
    # heavy scenarios spread evenly
    order = sorted(range(len(scenarios)), key=lambda i: -len(scenarios[i].get("ev", ())) * (1 + len(scenarios[i].get("init", {}).get("P", ()) if isinstance(scenarios[i].get("init"), dict) else ())))
    for k in range(shards):
        path = os.path.join(scratch, f"{tag}{k}.json")
        part = [scenarios[i] for i in order[k::shards]]
        with open(path, "w") as f:
            json.dump(part, f)
        cmd = command(scratch, arith, spec, None, os.path.join(scratch, f"{tag}meta{k}"), 1, "2g")
        jobs.append((cmd, {"TRACE": path, "PROP": prop, **(env or {})}, os.path.join(scratch, f"{tag}run")))
    texts = run_many(jobs, dict(os.environ), timeout)
    fails, done, gen, dist = [], set(), 0, 0
    for t in texts:
        objs, g, d, fin, err = parse(t)
        if err or not fin:
            raise Machinery("TLC on a trace: " + (err or t[-2000:]))
        gen += g
        dist += d
        for o in objs:
            if "done" in o:
                done.add(o["done"])
            elif "fail" in o:
                fails.append(o)
    missing = set(ids) - done
    if missing:
        raise Machinery(f"scenarios not consumed to their end: {sorted(missing)[:5]}")
    return fails, dist, gen


def check(scratch, spec, arith="exact", env=None, cfg=None, workers=None, timeout=800, heap="6g", tag="mc", extra=()):
    """Model checking; -> (objects, distinct, generated, violated) where violated is the error text or None."""
    workers = workers or min(os.cpu_count() or 4, 8)
    meta = os.path.join(scratch, tag + "meta")
    cmd = command(scratch, arith, spec, cfg, meta, workers, heap, extra)
    text, = run_many([(cmd, env or {}, os.path.join(scratch, tag + "run"))], dict(os.environ), timeout)
    shutil.rmtree(meta, ignore_errors=True)
    objs, gen, dist, fin, err = parse(text)
    if err and ("is violated" in err or "Invariant" in err and "violated" in err):
        return objs, dist, gen, text[text.find("Error:"):][:4000]
    if err or not fin:
        raise Machinery(f"TLC on {spec}: " + (err or text[-2000:]))
    return objs, dist, gen, None
