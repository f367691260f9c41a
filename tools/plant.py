"""Plant a bug: make the patch in a scratch copy, confirm build, tests and demo.
Used by hand:  plant(id, property, [(file, old, new)...], demo_py, needs, breaks)"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/plantw"
base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if False else None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def plant(id, prop, edits, demo, needs, breaks, force=False):
    d = os.path.join(V, "seeded", id)
    if os.path.exists(d) and not force:
        print(id, "exists"); return True
    shutil.rmtree(W, ignore_errors=True)
    sh(f"cp -a /repo {W} && git -C {W} checkout -q -- .")
    t = d + ".tmp"
    shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    open(t + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 BROWSER=true MPLBACKEND=Agg\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    open(t + "/demo.py", "w").write(demo)
    os.chmod(t + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(t + "/meta.json", "w"), indent=1)
    kernel = any(f.endswith(".pyx") for f, _, _ in edits)
    r0 = sh(f"bash {t}/demo.sh", cwd="/repo")
    if r0.returncode != 0:
        print(id, "DEMO FAILS ON CLEAN", r0.stdout[-1500:], r0.stderr[-1500:]); return False
    for f, a, b in edits:
        p = os.path.join(W, f); s = open(p).read()
        assert s.count(a) == 1, (id, f, a, s.count(a))
        open(p, "w").write(s.replace(a, b))
    diff = sh(f"git -C {W} diff").stdout
    open(t + "/patch.diff", "w").write(diff)
    # blame: changed lines must be original
    for f in {f for f, _, _ in edits}:
        bl = sh(f"git -C /repo blame -s {f}").stdout.splitlines()
        import re
        for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", sh(f"git -C {W} diff -U0 {f}").stdout, re.M):
            st, n = int(h[1]), int(h[2] or 1)
            for ln in bl[st - 1:st - 1 + n]:
                if not ln.startswith("^"):
                    print(id, "NOTE touches own line:", ln[:110])
    a = sh(f"git -C /repo apply --check {t}/patch.diff")
    if a.returncode:
        print(id, "does not apply", a.stderr); return False
    shutil.copy("/opt/vp/test.sh", "/tmp/plant-test.sh"); 
    if kernel:
        r = sh(f"cd {W} && {sys.executable} -m pvtrace.engine.build", env=dict(os.environ, PYTHONPATH=W))
        r = r if r.returncode == 0 else r
        if r.returncode:
            print(id, "BUILD FAILED", r.stdout[-800:], r.stderr[-1500:]); return False
    r = sh(f"cd {W} && {sys.executable} -m pytest -q -x -p no:cacheprovider tests 2>&1 | tail -5", env=dict(os.environ, PYTHONPATH=W, BROWSER="true"))
    tail = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "?"
    if "failed" in tail or "error" in tail or "passed" not in tail:
        print(id, "TESTS:", r.stdout[-900:]); return False
    r1 = sh(f"bash {t}/demo.sh", cwd=W)
    if r1.returncode == 0:
        print(id, "DEMO PASSES WITH BUG", r1.stdout[-500:]); return False
    shutil.rmtree(d, ignore_errors=True)
    os.rename(t, d)
    print(id, "ok:", tail, "| demo:", (r1.stdout + r1.stderr).strip().splitlines()[-1][:150])
    return True
