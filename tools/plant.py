#!/usr/bin/env python3
"""plant.py SPEC.py...: makes /verif/seeded/<id>/ out of a specification with
ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), and
optionally EXTRA files and SH; confirms the demonstration both ways."""
import sys, os, shutil, subprocess, json, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIT = os.path.join(V, "tools", "kit")
def run(*a, **k): return subprocess.run(a, **k)
for spec in sys.argv[1:]:
    m = runpy.run_path(spec)
    d = os.path.join(V, "seeded", m["ID"])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    lite = m.get("LITE")
    if not lite:
        shutil.copytree(os.path.join(V, "stubs"), os.path.join(d, "stubs"))
        shutil.copy(os.path.join(KIT, "kit.hpp"), d)
    sh = m.get("SH") or open(os.path.join(KIT, "demo.sh")).read()
    open(os.path.join(d, "demo.sh"), "w").write(sh)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    if m.get("DEMO"):
        open(os.path.join(d, "demo.cpp"), "w").write(m["DEMO"])
    for k, t in m.get("EXTRA", {}).items():
        open(os.path.join(d, k), "w").write(t)
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    wt = tempfile.mkdtemp(prefix="plant.")
    run("cp", "-a", "/repo/.", wt)
    a = run(os.path.join(d, "demo.sh"), cwd=wt, capture_output=True, text=True)
    for f, o, n in m["EDITS"]:
        p = os.path.join(wt, f)
        s = open(p).read()
        assert s.count(o) >= 1, (m["ID"], f, "not found", o)
        cnt = m.get("COUNT", 1)
        assert s.count(o) == cnt, (m["ID"], f, "ambiguous", s.count(o))
        open(p, "w").write(s.replace(o, n))
    diff = run("git", "-C", wt, "diff", capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    b = run(os.path.join(d, "demo.sh"), cwd=wt, capture_output=True, text=True)
    # existing tests with the change
    t = os.path.join(wt, "t.cpp")
    print(m["ID"], "clean rc", a.returncode, "patched rc", b.returncode, b.stdout.strip()[-200:])
    if a.returncode: print(a.stdout[-1500:], a.stderr[-2500:])
    if b.returncode == 0 or "error:" in b.stderr: print("   PATCHED:", b.stdout[-500:], b.stderr[-2500:])
    shutil.rmtree(wt)
