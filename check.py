#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--only CONTRACT]"""
import argparse
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)


def cli():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from engine import run
    if a.only:
        import json
        r = run.job((a.only, a.tier, seed))
        print(json.dumps(r, indent=1, default=str))
        return 1 if r["failures"] else 0
    return run.main(a.property, a.tier, seed)


if __name__ == "__main__":
    if os.environ.get("PYTHONHASHSEED") != "0" or "VERIF_REEXEC" not in os.environ:
        os.environ["PYTHONHASHSEED"] = "0"
        os.environ["VERIF_REEXEC"] = "1"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(cli())
