#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]"""
import os, sys, time, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import warnings

warnings.filterwarnings("ignore")


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    from lib.common import Check
    from lib import explore
    from lib.poly import EngineError
    import checks.registry as reg

    chk = Check(pid, tier, seed)
    try:
        reg.CHECKS[pid](chk)
    except (EngineError, explore.Inconclusive) as e:
        traceback.print_exc()
        chk.inconclusive.append(f"{type(e).__name__}: {e}")
    except Exception as e:
        traceback.print_exc()
        chk.inconclusive.append(f"harness {type(e).__name__}: {e}")
    sys.exit(chk.finish())


if __name__ == "__main__":
    main()
