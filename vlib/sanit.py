"""Uninitialised-memory sanitizer: arrays that numpy hands out without a value
are poisoned, so that an element nothing wrote surfaces as NaN (or as an absurd
integer) in what the monitors observe.  MALLOC_PERTURB_ (set by run.py) does the
same for memory that compiled code allocates."""
import numpy as np

_installed = False
poisoned = 0


def _poison(a):
    global poisoned
    poisoned += 1
    try:
        if a.dtype.kind in "fc":
            a.fill(np.nan)
        elif a.dtype.kind in "iu":
            a.fill(np.iinfo(a.dtype).max - 7)
        elif a.dtype.kind == "b":
            a.fill(True)
    except Exception:
        pass
    return a


def install():
    global _installed
    if _installed:
        return
    _installed = True
    empty, empty_like = np.empty, np.empty_like

    def p_empty(*a, **k):
        return _poison(empty(*a, **k))

    def p_empty_like(*a, **k):
        r = empty_like(*a, **k)
        return _poison(r) if isinstance(r, np.ndarray) else r

    # only for code of the package under test: numpy and scipy keep their own
    # (they bind them at import time or are trusted)
    import scipy.sparse.linalg, scipy.optimize, sklearn.utils.extmath  # noqa

    class NP:
        """proxy of the numpy module"""

        def __getattr__(self, name):
            return getattr(np, name)

    proxy = NP()
    proxy.empty = p_empty
    proxy.empty_like = p_empty_like
    import os
    if os.environ.get("VERIF_NUMBA") == "1":
        return
    import importlib
    for m in ("utils", "loss", "constraint", "penalty", "tv_prox", "frank_wolfe",
              "proximal_gradient", "randomized", "splitting"):
        try:
            mod = importlib.import_module("copt." + m)
        except Exception:
            continue
        if getattr(mod, "np", None) is np:
            mod.np = proxy
        for nm, f in (("empty", p_empty), ("empty_like", p_empty_like)):
            if nm in vars(mod) and vars(mod)[nm] in (empty, empty_like):
                setattr(mod, nm, f)
