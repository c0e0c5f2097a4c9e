#!/usr/bin/env python3
"""
Entry point of the checks.

    run.py check ID            decide one property (VERIF_SEED, VERIF_TIER from the environment)
    run.py replay FILE         run one recorded case (a replay or corpus file) and report whether it still fails
    run.py list                the properties and their sub-checks

The code under test is imported from VERIF_REPO (default /repo).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "LANG": "C.UTF-8",
    "VERIF_REEXEC": "1",
}


def main():
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        if "VERIF_HASHSEED" in env:
            ENV["PYTHONHASHSEED"] = env["VERIF_HASHSEED"]
        env.update(ENV)
        env.pop("PYTHONPATH", None)
        env.pop("PYTHONSTARTUP", None)
        os.execve(PY, [PY, "-B", os.path.abspath(__file__)] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    from harness import core
    sys.exit(core.main(sys.argv[1:]))


if __name__ == "__main__":
    main()
