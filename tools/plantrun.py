"""plantrun.py [ids]: runs the property's own quick check on a copy of /repo with each planted bug
(VERIF_REPO points the harness to the copy) and records the result in tools/caught.json."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(ROOT, "tools", "caught.json")
base = os.path.join(ROOT, "seeded")
copy = os.path.join(tempfile.mkdtemp(), "repo")
shutil.copytree("/repo", copy, symlinks=True)
try:
    for i in sys.argv[1:] or sorted(os.listdir(base)):
        d = os.path.join(base, i)
        subprocess.run(["git", "checkout", "-q", "--", "."], cwd=copy, check=True)
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=copy, check=True)
        p = json.load(open(os.path.join(d, "meta.json")))["property"]
        r = subprocess.run([os.path.join(ROOT, "check"), p], cwd=ROOT, env=dict(os.environ, VERIF_REPO=copy, VERIF_SEED="1"), capture_output=True, text=True)
        hit = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
        now = json.load(open(out)) if os.path.exists(out) else {}
        now[i] = "caught" if hit else f"missed (rc {r.returncode})"
        with open(out, "w") as f:
            json.dump(now, f, indent=1, sort_keys=True)
            f.write("\n")
        print(i, p, now[i], flush=True)
finally:
    shutil.rmtree(os.path.dirname(copy))
