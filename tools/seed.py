#!/usr/bin/env python3
"""seed.py [IDS]: runs each seeded change's own check against a patched copy of /repo."""
import sys, os, json, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ids = sys.argv[1:] or sorted(os.listdir(S))
def one(i):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    wt = tempfile.mkdtemp(prefix="seed.")
    subprocess.run(["cp", "-a", "/repo/.", wt])
    subprocess.run(["git", "-C", wt, "apply", os.path.join(S, i, "patch.diff")], check=True)
    e = dict(os.environ, TRAJOPT_REPO=wt, TRAJOPT_EVIDENCE=wt, VERIF_SEED="1", VERIF_TIER="quick")
    t = time.time()
    r = subprocess.run(["python3", os.path.join(V, "check.py"), m["property"], "quick"], env=e, capture_output=True, text=True, cwd=V)
    shutil.rmtree(wt)
    hit = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return i, m["property"], r.returncode, round(time.time() - t), hit[:1], r.stderr[-300:] if r.returncode not in (0, 1) else ""
with ThreadPoolExecutor(2) as ex:
    for r in ex.map(one, ids): print(*r, flush=True)
