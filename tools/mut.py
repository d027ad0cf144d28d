"""Sensitivity runs: apply textual mutants to a scratch copy and run the named checks on it.
usage: mut.py LIST.py [filter]     LIST.py defines M = [(name, [(file, old, new)...], [property ids])]"""
import os, subprocess, sys, shutil, time, runpy
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def one(m):
    name, edits, props = m
    d = f"/tmp/mut_{os.getpid()}_{name}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns(".git", "docs", "demos", "build", "*.egg-info"))
    vd = d + "_v"
    shutil.copytree(V, vd, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    out = []
    try:
        for f, old, new in edits:
            p = os.path.join(d, "rkstiff", f)
            s = open(p).read()
            if s.count(old) < 1:
                return f"{name}: PATTERN MISSING in {f}"
            open(p, "w").write(s.replace(old, new, 1) if not new.endswith("#ALL") else s.replace(old, new[:-4]))
        t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": d})
        tl = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else "?"
        for p in props:
            t0 = time.time()
            r = subprocess.run(["python3-vt", "-B", os.path.join(vd, "run.py"), p, "quick"], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d}, timeout=1800)
            L = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "INCONCL" in x or "REPRODUCED" in x or "replay error" in x or x.startswith("  ")]
            out.append(f"{p}: exit {r.returncode} {time.time()-t0:.0f}s {'; '.join(x[:170] for x in L[:3])}" + ("" if r.returncode < 2 else r.stderr[-300:]))
        return f"== {name} [tests: {tl}]\n   " + "\n   ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(vd, ignore_errors=True)

M = runpy.run_path(sys.argv[1])["M"]
if len(sys.argv) > 2:
    M = [m for m in M if sys.argv[2] in m[0]]
with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for r in ex.map(one, M):
        print(r, flush=True)
