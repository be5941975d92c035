#!/opt/venv/bin/python
"""Run one check:  check.py C05 [--tier quick|thorough] [--replay FILE]"""

import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/conjugate-mc-mpl")
os.environ["PYTHONHASHSEED"] = os.environ.get("PYTHONHASHSEED", "0")
PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv"):
    os.execv(PY, [PY, *sys.argv])

import importlib
import json
import traceback

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CONJ_REPO", "/repo")


def import_code():
    import numpy, scipy.stats, scipy.special, scipy.integrate, matplotlib, pandas  # noqa: F401,E401

    matplotlib.use("Agg")
    # SciPy writes a new docstring for every frozen distribution; half of the time of a check goes into them
    generic = scipy.stats._distn_infrastructure.rv_generic
    if hasattr(generic, "_construct_doc"):
        generic._construct_doc = lambda *args, **kwargs: None
    # never read bytecode of the code under test: the working tree may just have been changed
    sys.pycache_prefix = f"/tmp/conjugate-mc-nocache-{os.getpid()}"
    for name in [m for m in sys.modules if m == "conjugate" or m.startswith("conjugate.")]:
        del sys.modules[name]
    sys.path.insert(0, REPO)
    import conjugate.distributions
    import conjugate.models
    import conjugate.plot

    root = os.path.realpath(os.path.join(REPO, "conjugate"))
    for m in (conjugate.models, conjugate.distributions, conjugate.plot):
        assert os.path.realpath(m.__file__).startswith(root + os.sep), m.__file__


def main():
    args = sys.argv[1:]
    if args[:1] == ["--warm"]:  # setup: fill the font cache of matplotlib and check that everything imports
        import_code()
        import matplotlib.font_manager  # noqa: F401

        return 0
    prop = args[0].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.path.insert(0, VERIF)
    from mc import core

    try:
        import_code()
        check = importlib.import_module(f"mc.checks.{prop.lower()}")
        if "--replay" in args:
            return core.replay(check, args[args.index("--replay") + 1], tier)
        return core.main(check, tier, seed)
    except Exception as e:
        # the code cannot even be imported or set up: no behaviour of the property is left
        f = {
            "key": f"setup:{type(e).__name__}",
            "what": f"{type(e).__name__}: {e}"[:500],
            "detail": traceback.format_exc()[-3000:],
            "unit": None,
        }
        path = core.write_replay(prop, f)
        print(f["detail"])
        ev = {
            "property": prop, "tier": tier, "seed": seed, "level": "other",
            "coverage": {"explanation": "the code under test could not be set up"},
            "wall_s": 0.0, "violations": 1,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"))
        print(f"VIOLATION property={prop} replay={path}")
        return 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
