"""Everything the code under test may write goes to a scratch directory that is removed."""
import json
import os
import sys


def prepare(scratch):
    home = os.path.join(scratch, "home")
    os.makedirs(os.path.join(home, ".config"), exist_ok=True)
    prefs = os.path.join(home, ".config", "ca.dcclab.python.raytracing.json")
    if not os.path.exists(prefs):
        with open(prefs, "w") as f:
            json.dump({"lastVersionCheck": "2999-01-01T00:00:00.000000", "mode": "silent"}, f)
    env = dict(os.environ)
    env.update(HOME=home, MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(home, "mpl"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
               TMPDIR=os.path.join(scratch, "tmp"))
    os.makedirs(env["TMPDIR"], exist_ok=True)
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)
    env.pop("PYTHONPATH", None)
    return env
