"""Run each seeded bug's own property check on a patched scratch copy.  usage: runseeds.py [filter] (J=parallel)"""
import os, subprocess, sys, shutil, time, json, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("TIER", "quick")

def one(sd):
    i = os.path.basename(sd)
    p = json.load(open(sd + "/meta.json"))["property"]
    d = f"/tmp/seed_{os.getpid()}_{i}"
    vd = d + "_v"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("docs", "demos", "build", "*.egg-info"))
    shutil.copytree(V, vd, ignore=shutil.ignore_patterns(".git", "evidence", "seeded"))
    try:
        r = subprocess.run(["git", "-C", d, "apply", sd + "/patch.diff"], capture_output=True, text=True)
        if r.returncode:
            return f"{i}: APPLY FAILED {r.stderr[:200]}"
        t0 = time.time()
        r = subprocess.run(["python3-vt", "-B", vd + "/run.py", p, TIER], capture_output=True, text=True, env={**os.environ, "VERIF_REPO": d}, timeout=1800)
        L = [x for x in r.stdout.splitlines() if "VIOLATION" in x or "INCONCL" in x or "REPRODUCED" in x]
        ok = r.returncode == 1 and any(x.startswith(f"VIOLATION property={p} ") for x in L)
        return f"{'CAUGHT' if ok else 'MISSED'} {i}: exit {r.returncode} {time.time()-t0:.0f}s {'; '.join(x[:150] for x in L[:3])}"
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(vd, ignore_errors=True)

S = sorted(x.rstrip("/") for x in glob.glob(V + "/seeded/*/"))
if len(sys.argv) > 1:
    S = [s for s in S if any(f in s for f in sys.argv[1:])]
with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, S):
        print(r, flush=True)
