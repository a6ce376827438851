#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [-v] [--only HARNESS]   or   check.py --replay FILE"""
import argparse
import json
import os
import sys

WANT = {"PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TQDM_DISABLE": "1", "MPLBACKEND": "Agg",
        "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
VENV = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if __name__ == "__main__":
    if any(os.environ.get(k) != v for k, v in WANT.items()) or os.path.realpath(sys.prefix) != "/opt/venv":
        if os.environ.get("SYMX_EXEC") != "1":
            os.environ.update(WANT, SYMX_EXEC="1")
            os.execv(VENV, [VENV, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:])
    sys.path.insert(0, HERE)
    from symx import run

    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", action="append")
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.replay:
        v = json.load(open(a.replay))
        r = run.Replayer().fresh(v["property"], v["harness"], v["cfg"], v["values"])
        print(json.dumps(r, indent=1))
        sys.exit(1 if r["r"] in ("fail", "hang", "died") else 0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.exit(run.run_check(a.prop, a.tier, seed, a.budget, a.jobs, a.only, a.v))
