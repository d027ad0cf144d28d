"""Every replay must be quiet on the unchanged tree, for every model-free case the checks can ask for.
1. VERIF_DUMP_REPLAYS=/tmp/d.jsonl python3 run.py Pxx quick   (for the properties of interest)
2. /opt/venv/bin/python -B tools/replays_quiet.py /tmp/d.jsonl [handler prefix]"""
import sys, os, time, json, io, contextlib, traceback
from concurrent.futures import ProcessPoolExecutor

os.environ["OMP_NUM_THREADS"] = "1"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.environ.get("VERIF_REPO", "/repo")]


def run(case):
    import replays

    n, p = case
    t = time.time()
    b = io.StringIO()
    try:
        with contextlib.redirect_stdout(b):
            r = replays.HANDLERS[n](model={}, **p)
    except Exception:
        r = traceback.format_exc()
    return n, p, r, time.time() - t, b.getvalue()[-300:]


if __name__ == "__main__":
    C, seen = [], set()
    for line in open(sys.argv[1]):
        _, n, p = json.loads(line)
        k = (n, json.dumps(p, sort_keys=True))
        if k not in seen and (len(sys.argv) < 3 or n.startswith(sys.argv[2])):
            seen.add(k)
            C.append((n, p))
    bad = 0
    with ProcessPoolExecutor(7) as ex:
        for n, p, r, t, o in ex.map(run, C, chunksize=1):
            if r:
                bad += 1
                print("NOT QUIET", n, p, r, o)
            elif t > 60:
                print("slow", n, p, round(t))
    print(len(C), "cases,", bad, "not quiet")
