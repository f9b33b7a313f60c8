"""A second copy of the package under test, imported without numba.

The copy that `import copt` gives is compiled (VERIF_NUMBA=1); inside of
`with active():` the same import statements give the copy in which the very same
source runs in the interpreter."""
import contextlib
import importlib
import sys

MODULES = ["copt", "copt.utils", "copt.loss", "copt.constraint", "copt.penalty", "copt.tv_prox", "copt.frank_wolfe", "copt.proximal_gradient", "copt.randomized", "copt.splitting"]
_py = {}


def _take():
    return {k: sys.modules.pop(k) for k in list(sys.modules) if k == "copt" or k.startswith("copt.")}


def load():
    if _py:
        return
    for m in MODULES:
        importlib.import_module(m)
    compiled = _take()
    hidden = {k: sys.modules.pop(k) for k in list(sys.modules) if k == "numba" or k.startswith("numba.")}
    sys.modules["numba"] = None
    try:
        for m in MODULES:
            importlib.import_module(m)
        _py.update(_take())
    finally:
        sys.modules.pop("numba", None)
        sys.modules.update(hidden)
        _take()
        sys.modules.update(compiled)


@contextlib.contextmanager
def active():
    saved = _take()
    sys.modules.update(_py)
    try:
        yield
    finally:
        _take()
        sys.modules.update(saved)


def module(name):
    return _py[name]
