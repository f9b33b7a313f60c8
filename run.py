#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY-ID> [--tier quick|thorough] [--replay FILE]

Re-executes itself with a fixed, sanitizing environment and runs the workloads of
checks/<id>.py under the monitors of that module.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
ENV = {
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "PYTHONHASHSEED": "0",
    "PYTHONDONTWRITEBYTECODE": "1",
    # fresh memory is filled with a recognisable pattern, so a read of memory
    # that nothing wrote shows up as a wrong result
    "MALLOC_PERTURB_": "128",
}

if __name__ == "__main__":
    if os.environ.get("_VERIF_ENV") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env["_VERIF_ENV"] = "1"
        env.pop("PYTHONPATH", None)
        if sys.argv[1:2] and sys.argv[1].upper() == "C22":
            # the compiled variant of the package, with checked array accesses
            env["VERIF_NUMBA"] = "1"
            env["NUMBA_BOUNDSCHECK"] = "1"
            env["NUMBA_OPT"] = "1"
            env["NUMBA_NUM_THREADS"] = "2"
        if env.get("VERIF_NUMBA") == "1":
            env["PYTHONPATH"] = "/opt/numba-extra"
        py = PY if os.path.exists(PY) else sys.executable
        os.execve(py, [py, os.path.join(HERE, "run.py")] + sys.argv[1:], env)
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    from vlib import core

    sys.exit(core.main(sys.argv[1:]))
