#!/usr/bin/env python3
"""check.py Cxx [--tier quick|thorough] [--only substr] [-v] [--jobs n] | --replay file"""
import os
import sys

for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("PYTHONHASHSEED", "0")
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and os.path.exists(PY) and not os.environ.get("VERIF_NOEXEC"):
    os.environ["VERIF_NOEXEC"] = "1"
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DIREPACK_REPO", "/repo")
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(REPO, "src"))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse
import warnings

warnings.filterwarnings("ignore")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    from engine import runner
    if a.replay:
        sys.exit(runner.replay(a.replay))
    import direpack
    if not os.path.realpath(direpack.__file__).startswith(os.path.realpath(REPO) + os.sep):
        print("direpack was not imported from %s but from %s" % (REPO, direpack.__file__))
        sys.exit(4)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(runner.run_property(a.prop, a.tier, seed, a.jobs, a.only, a.v))


main()
