#!/usr/bin/env python3
"""Entry point of every check:  run.py C06 [--tier quick|thorough] [--replay FILE] [--case N]

Re-executes itself under the repository's interpreter with a fixed environment
(single-threaded BLAS, fixed hash seed, no bytecode written into /repo).
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
ENV = {"OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg",
       "PYTHONPATH": REPO + ":" + os.path.join(HERE, "lib") + ":" + HERE,
       "PYTHONWARNINGS": "ignore", "VERIF_CHILD": "1"}

if __name__ == "__main__":
    if os.environ.get("VERIF_CHILD") != "1":
        env = dict(os.environ)
        env.update(ENV)
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, "-W", "ignore", os.path.abspath(__file__)] + sys.argv[1:], env)
    import runner
    sys.exit(runner.main(sys.argv[1:]))
