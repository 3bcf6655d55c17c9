#!/opt/venv/bin/python
"""run.py CNN [--tier quick|thorough] [--seed N] [--only SUB ...] [--replay FILE]"""
import argparse
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0" or "PYTHONDONTWRITEBYTECODE" not in os.environ:
    os.environ.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONUTF8="1",
                      OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    os.environ.pop("PYTHONPATH", None)
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python"] + [os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
# The code under test is the working tree of /repo (never an installed copy).
sys.path.insert(0, os.environ.get("HX_SRC", "/repo/src"))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--only", nargs="*")
    ap.add_argument("--replay")
    ap.add_argument("--noevidence", action="store_true")
    a = ap.parse_args()
    from hx import core
    import hdf5storage

    src = os.path.realpath(os.path.dirname(hdf5storage.__file__))
    want = os.path.realpath(os.path.join(os.environ.get("HX_SRC", "/repo/src"), "hdf5storage"))
    if src != want:
        print("HARNESS ERROR: testing", src, "instead of", want, file=sys.stderr)
        return 2
    if a.noevidence:
        os.environ["HX_NOEVIDENCE"] = "1"
    mod = importlib.import_module("checks." + a.prop.lower())
    if a.replay:
        return core.replay(mod, a.replay)
    return core.run_property(mod, "thorough" if a.tier == "thorough" else "quick", a.seed, a.only)


if __name__ == "__main__":
    sys.exit(main())
