"""Build and verify planted bugs: mkseed.py [filter].  Definitions in tools/seeds.py; writes /verif/seeded/<id>/ when the
change applies, the tests pass with it, the demonstration passes without it and fails with it."""
import os, sys, subprocess, shutil, json, difflib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '#!/bin/sh\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
HEAD = '"""Demonstration: exit 0 when the property holds, 1 when it is broken."""\nimport os, sys, warnings\nsys.path.insert(0, os.getcwd())\nimport numpy as np\n'

for sid, s in SEEDS.items():
    if len(sys.argv) > 1 and sys.argv[1] not in sid:
        continue
    d = f"/tmp/seed_{os.getpid()}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "docs", "demos", "build", "*.egg-info"))
    diff, ok = "", True
    for f, old, new in s["edits"]:
        p = os.path.join(d, "rkstiff", f)
        a = open(p).read()
        if a.count(old) != 1 and not s.get("all"):
            print(sid, "PATTERN count", a.count(old), f)
            ok = False
            continue
        open(p, "w").write(a.replace(old, new))
    for f in sorted({e[0] for e in s["edits"]}):
        a, b = open(f"/repo/rkstiff/{f}").readlines(), open(f"{d}/rkstiff/{f}").readlines()
        diff += "".join(difflib.unified_diff(a, b, f"a/rkstiff/{f}", f"b/rkstiff/{f}"))
    if ok:
        out = os.path.join(V, "seeded", sid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/patch.diff", "w").write(diff)
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        open(out + "/demo.py", "w").write(HEAD + s["demo"].lstrip("\n"))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        env = {**os.environ, "PYTHONPATH": d, "PYTHONDONTWRITEBYTECODE": "1"}
        t = subprocess.run([PY, "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, capture_output=True, text=True, env=env)
        r0 = subprocess.run(["sh", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        r1 = subprocess.run(["sh", out + "/demo.sh"], cwd=d, capture_output=True, text=True)
        ap = subprocess.run(["git", "-C", "/repo", "apply", "--check", out + "/patch.diff"], capture_output=True, text=True)
        tl = t.stdout.strip().splitlines()[-1]
        good = t.returncode == 0 and r0.returncode == 0 and r1.returncode == 1 and ap.returncode == 0
        print(sid, "OK" if good else "BAD", tl, "unchanged:", r0.returncode, (r0.stdout + r0.stderr)[-300:], "patched:", r1.returncode, (r1.stdout + r1.stderr).strip()[-160:], ap.stderr[-200:], flush=True)
        if not good:
            shutil.rmtree(out)
    shutil.rmtree(d, ignore_errors=True)
