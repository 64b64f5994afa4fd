#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, edits=[(file, old, new)], demo, needs, what.  Builds seeded/<id>, checks the
demonstration both ways and (unless --nocheck) the property's check."""
import json, os, runpy, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
def sh(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
def one(s, check):
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    assert not sh("git", "-C", REPO, "status", "--porcelain").stdout.strip()
    with open(os.path.join(d, "demo.py"), "w") as f: f.write(s["demo"].lstrip("\n"))
    shutil.copy(os.path.join(HERE, "tools/seedkit/kit.py"), os.path.join(d, "kit.py"))
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$D/demo.py"\n')
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]}, f, indent=1)
    r0 = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
    if r0.returncode: print(s["id"], "demo FAILS on the unchanged tree", r0.stdout[-500:], r0.stderr[-1500:]); return
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(REPO, "src/ethereum", f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old))
            open(p, "w").write(t.replace(old, new))
        diff = sh("git", "-C", REPO, "diff").stdout
        with open(os.path.join(d, "patch.diff"), "w") as f: f.write(diff)
        r1 = sh("bash", os.path.join(d, "demo.sh"), cwd=REPO)
        print(s["id"], "demo with the change:", r1.returncode, r1.stdout.strip()[-200:], r1.stderr.strip()[-300:] if r1.returncode != 1 or "BROKEN" not in r1.stdout else "")
        if check:
            t0 = time.time()
            c = sh("python3", "check.py", s["property"], "--tier", "quick", cwd=HERE)
            print("   check", s["property"], "exit", c.returncode, "%.0fs" % (time.time() - t0), [l for l in c.stdout.splitlines() if "VIOL" in l or "ERROR" in l][:2], c.stdout[-300:] if c.returncode != 1 else "")
    finally:
        sh("git", "-C", REPO, "checkout", "--", ".")
for a in sys.argv[1:]:
    if a.startswith("--"): continue
    ns = runpy.run_path(a)
    for s in ns["SEEDS"]:
        if "--only" in sys.argv and s["id"] != sys.argv[sys.argv.index("--only") + 1]: continue
        one(s, "--nocheck" not in sys.argv)
