#!/opt/venv/bin/python
"""run.py <property id> [quick|thorough] [--replay FILE]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
# always the working tree of /repo, whatever is installed
sys.path.insert(0, os.environ.get("PETROFIT_REPO", "/repo"))


def main(argv):
    import argparse
    import importlib
    import json
    import warnings

    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("tier", nargs="?", default=None)
    ap.add_argument("--replay")
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 0)
    warnings.simplefilter("ignore")
    # keep astropy/matplotlib caches of this run out of the home directory
    import tempfile, shutil

    scratch = tempfile.mkdtemp(prefix="vp-mc-")
    for k in ("MPLCONFIGDIR", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"):
        os.environ[k] = scratch
    os.environ["VP_SCRATCH"] = scratch
    for d in ("astropy",):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    try:
        from mc import core

        check = importlib.import_module("checks." + a.property.lower())
        import petrofit

        where = os.path.realpath(os.path.dirname(petrofit.__file__))
        want = os.path.realpath(os.path.join(os.environ.get("PETROFIT_REPO", "/repo"), "petrofit"))
        if where != want:
            print("petrofit was imported from {} instead of {}".format(where, want))
            return 2
        only, after = None, []
        if a.replay:
            d = json.load(open(a.replay))
            only, after = d["case"], d.get("after", [])
        return core.run_check(check, tier, seed, only, after)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
