"""C17: callbacks, stopping and Trace."""
import math

import numpy as np
import copt as cp
from vlib import gen, runs
from vlib.core import digest, Skip

ID = "C17"
RULE = ("random call of every solver; the dictionaries received by the callback are recorded and compared with the iterates of an unobserved run, with runs stopped by the callback at every "
        "kind of position, and with what utils.Trace stored; non-trivial: at least two different iterates shown; distinct by digest of the iterates")
ASSUMPTIONS = ["stochastic solvers are reseeded before each run", "the callback does not modify what it receives", "a value of a callback other than False (None, True, 1, an array) does not stop the solver"]
REQUIRED = ["callback " + s for s in runs.SOLVERS] + ["stopped " + s for s in sorted(runs.HONOURS_FALSE)] + [
    "Trace of x", "Trace of f(x)", "Trace frequency", "infinite max_iter", "float max_iter", "max_iter reached", "stopped by tol", "Trace unaffected by later runs", "warnings on failure"]


class Shown:
    """Callback that records copies of what it receives."""

    def __init__(self, stop=None, ret=None):
        self.x, self.ss, self.stop, self.ret, self.aliased = [], [], stop, ret, []

    def __call__(self, dl):
        self.x.append(np.array(dl["x"]))
        v = dl.get("step_size")
        self.ss.append(v if np.isscalar(v) else None)
        if self.stop is not None and len(self.x) >= self.stop:
            return False
        return self.ret


def eq(a, b):
    return a.shape == b.shape and np.array_equal(a, b)


def iterations(R, res, S):
    """How many iterations the run made, told by its callbacks."""
    c = len(S.x)
    if R.name in ("fw", "fwp", "saga", "svrg", "vrtos", "sfw"):
        return c - 1  # one extra call: at the end, or at the start
    return c


def wl(ctx, rng):
    R = runs.Run(rng, simple=True)
    name = R.name
    plain = R.call()
    S = Shown(ret=[None, None, True, 1, np.ones(2), "go on"][rng.randint(6)])
    res = R.call(callback=S)
    ctx.count("callback " + name)
    d = runs.same(plain, res)
    ctx.check(d is None, "observing a run with a callback changes its result (%s)" % d, plain=plain.x, observed=res.x, **R.info)
    X = S.x
    if name == "pd" and res.success and not X:
        return  # solved by its first step, which is not shown
    ctx.check(len(X) > 0, "the callback is never called", **R.info)
    for x in X:
        ctx.check(x.shape == (R.p,) and x.dtype == float, "the callback does not receive an iterate", got=x, **R.info)
    if name in runs.FINAL_SHOWN:
        ctx.check(eq(X[-1], res.x), "the last callback does not receive the solution", got=X[-1], solution=res.x, **R.info)
    # the first iterate
    if name in ("pg", "apg", "saga", "svrg", "sfw"):
        ctx.check(eq(X[0], R.x0), "the first callback does not receive the starting point", got=X[0], **R.info)
    if name in ("fw", "fwp") and len(X) > 1:
        ctx.check(eq(X[0], R.x0), "the first callback does not receive the starting point", got=X[0], **R.info)
    # number of calls against max_iter and the documented stopping rule
    T = iterations(R, res, S)
    if name != "sfw":
        ctx.check(T <= R.max_iter + (1 if name in ("pg", "apg", "fw", "fwp") else 0), "more than max_iter iterations", calls=len(X), **R.info)
    ctx.check(abs(int(res.nit) - T) <= 1 or name == "sfw", "nit is not the number of iterations", nit=res.nit, calls=len(X), **R.info)
    if name in ("tos", "pg", "apg", "fw", "fwp", "saga", "svrg", "pd"):
        if not res.success:
            ctx.check(T >= R.max_iter, "the run stopped before max_iter without success", calls=len(X), nit=res.nit, **R.info)
            ctx.count("max_iter reached")
        else:
            ctx.count("stopped by tol")
    elif name == "vrtos":
        ctx.check(T == R.max_iter, "the run does not make max_iter passes", calls=len(X), **R.info)
    if name in ("saga", "svrg") and len(X) > 1:
        steps = [float(np.abs(b - a).sum()) for a, b in zip(X, X[1:])]
        ctx.check(all(v >= R.tol for v in steps[:-1]) and (bool(res.success) == (steps[-1] < R.tol)), "success does not tell that the last pass moved by less than tol", moves=steps[-3:], success=bool(res.success), **R.info)
    # every iterate is shown: without a gap two runs that differ only in max_iter see the same prefix
    if name not in ("sfw",) and rng.rand() < 0.5 and R.max_iter > 1:
        m = 1 + rng.randint(R.max_iter - 1)
        S2 = Shown()
        r2 = R.call(callback=S2, max_iter=m)
        k = len(S2.x) - (1 if name in ("fw", "fwp") else 0)
        ctx.check(len(S2.x) <= len(X) and all(eq(a, b) for a, b in zip(S2.x[:k], X)), "a run with a smaller max_iter does not follow the same iterates", max_iter_=m, **R.info)
        if name in runs.FINAL_SHOWN:
            ctx.check(eq(S2.x[-1], r2.x), "the last callback does not receive the solution", got=S2.x[-1], solution=r2.x, **R.info)
    # stopping
    if name in runs.HONOURS_FALSE:
        for k in {1, 1 + rng.randint(len(X)), 1 + rng.randint(len(X))}:
            if name in ("fw", "fwp") and k == len(X):
                continue  # the final call, nothing is left to stop
            S3 = Shown(stop=k)
            r3 = R.call(callback=S3)
            ctx.count("stopped " + name)
            ctx.check(k <= len(S3.x) <= k + (1 if name in ("fw", "fwp") else 0), "the solver goes on after the callback returned False", returned_at=k, calls=len(S3.x), **R.info)
            ctx.check(all(eq(a, b) for a, b in zip(S3.x, X[:k])), "the iterates before the callback stops the solver are different", **R.info)
            ctx.check(eq(r3.x, X[k - 1]), "a solver stopped by its callback does not return the iterate it showed", shown=X[k - 1], got=r3.x, returned_at=k, **R.info)
            if name not in ("fw", "fwp", "tos"):
                ctx.check(not r3.success or k == len(X), "success is reported by a run stopped by its callback", returned_at=k, **R.info)
            elif name == "tos":
                ctx.check(not r3.success, "success is reported by a run stopped by its callback", returned_at=k, **R.info)
    if len({x.tobytes() for x in X}) > 1:
        ctx.key(digest(*X))
    ctx.sample(calls=len(X), success=bool(res.success), **R.info)


def wl_trace(ctx, rng):
    R = runs.Run(rng, simple=True)
    name = R.name
    S = Shown()
    freq = [1, 1, 2, 3, 7, 2.0, 1000][rng.randint(7)]
    o = R.objects()
    g = [lambda x: float(np.sum(x * x)), o.loss][rng.randint(2)] if rng.rand() < 0.5 else None
    T = cp.utils.Trace(g, freq=freq) if rng.rand() < 0.5 else cp.utils.Trace(f=g, freq=freq)

    def both(dl):
        S(dl)
        return T(dl)

    res = R.call(objs=o, callback=both)
    if rng.rand() < 0.3:
        R2 = runs.Run(rng, simple=True)
        R2.call(callback=cp.utils.Trace())
        ctx.count("Trace unaffected by later runs")
    f = int(freq)
    want = S.x[::f]
    if f > 1:
        ctx.count("Trace frequency")
    n = len(want)
    ctx.check(len(T.trace_time) == n and len(T.trace_step_size) == n, "Trace does not record one entry every freq calls", entries=len(T.trace_time), calls=len(S.x), freq=freq, **R.info)
    if g is None:
        ctx.count("Trace of x")
        ctx.check(len(T.trace_x) == n and len(T.trace_fx) == 0, "Trace without f does not store the iterates", **R.info)
        for a, b in zip(T.trace_x, want):
            ctx.check(eq(np.asarray(a), b), "Trace does not store the iterate of its call", stored=a, iterate=b, **R.info)
        for a in T.trace_x:
            ctx.check(not np.shares_memory(a, res.x), "Trace keeps a reference to the solution, not a copy", **R.info)
    else:
        ctx.count("Trace of f(x)")
        ctx.check(len(T.trace_fx) == n and len(T.trace_x) == 0, "Trace with f does not store the objective", **R.info)
        for a, b in zip(T.trace_fx, want):
            v = g(b)
            ctx.check(abs(a - v) <= 1e-12 * (1 + abs(v)), "Trace does not store the objective at the iterate of its call", stored=a, value=v, **R.info)
    t = T.trace_time
    ctx.check(all(isinstance(v, float) and v >= 0 for v in t) and all(a <= b for a, b in zip(t, t[1:])), "the times of Trace go backwards", times=t, **R.info)
    for a, b in zip(T.trace_step_size, S.ss[::f]):
        if b is not None:
            ctx.check(a == b, "Trace does not store the step size of its call", **R.info)
    ctx.key("trace", digest(*S.x), freq, g is None)


def wl_maxiter(ctx, rng):
    """Proximal gradient accepts an infinite or floating point max_iter."""
    R = runs.Run(rng, name=["pg", "apg"][rng.randint(2)], simple=True)
    if rng.rand() < 0.5:
        k = 1 + rng.randint(30)
        S = Shown(stop=k)
        R.call(callback=S, max_iter=np.inf, tol=0)
        ctx.check(len(S.x) == k, "a run with infinite max_iter does not end where its callback returns False", calls=len(S.x), returned_at=k, **R.info)
        ctx.count("infinite max_iter")
    else:
        m = R.max_iter
        S, S2 = Shown(), Shown()
        R.call(callback=S, max_iter=float(m))
        R.call(callback=S2, max_iter=m)
        ctx.check(len(S.x) == len(S2.x) and all(eq(a, b) for a, b in zip(S.x, S2.x)), "a floating point max_iter changes the run", **R.info)
        ctx.count("float max_iter")
    ctx.key("max_iter", digest(*S.x))


def wl_warn(ctx, rng):
    """Documented warnings: exhausted line searches and the accelerated variant that does not converge."""
    import warnings

    R = runs.Run(rng, name="apg", simple=True, max_iter=2)
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        res = R.call(tol=0)
    ctx.check(any(issubclass(w.category, RuntimeWarning) and "did not reach" in str(w.message) for w in W), "no warning although the accelerated variant did not converge", **R.info)
    ctx.check(not res.success, "success is reported with tol = 0 after max_iter iterations", **R.info)

    # a line search that can not succeed
    c = rng.randint(2)
    x0 = rng.randn(3)
    bad = lambda x: calls(x)
    jac = lambda x: np.ones(3)
    n = [0]

    def calls(x):
        n[0] += 1
        return float(n[0])  # grows with every evaluation

    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        if c == 0:
            cp.minimize_proximal_gradient(bad, x0, jac=jac, max_iter=1, max_iter_backtracking=5)
        else:
            import copt.constraint as cc
            cp.minimize_frank_wolfe(bad, np.zeros(3), cc.L1Ball(1.0).lmo, jac=jac, max_iter=1, lipschitz=1.0)
    ctx.check(any("ine-search iterations" in str(w.message) or "line search iterations" in str(w.message) for w in W), "an exhausted line search does not warn", which=["proximal gradient", "Frank-Wolfe"][c])
    ctx.count("warnings on failure")
    ctx.key("warn", c, digest(x0))


def wl_known(ctx, rng):
    """Documented stopping rules that are not implemented (listed findings)."""
    name = ["sfw", "vrtos", "pd"][rng.randint(3)]
    R = runs.Run(rng, name=name, simple=True, max_iter=6, formats=["C"])
    S = Shown()
    if name == "sfw":
        R.conf.update(step_size="sublinear", variant="SAG", batch_size=1)
        R.call(callback=S, tol=1e6)
        if len(S.x) > 2:
            ctx.known("sfw-tol", "minimize_sfw goes on after the difference between two successive iterates is below tol")
    elif name == "vrtos":
        R.call(callback=S, tol=1e6)
        if len(S.x) > 2:
            ctx.known("vrtos-tol", "minimize_vrtos goes on after its tolerance is reached and never reports success")
    else:
        class Enough(Exception):
            pass
        n = [0]

        def wrap(nm, fn):
            if nm != "fun":
                return fn

            def f(x, *a, **k):
                n[0] += 1
                if n[0] > 3000:
                    raise Enough
                v, g = fn(x)
                return (v if n[0] < 3 else np.nan), g
            return f
        try:
            R.call(callback=S, wrap=wrap, line_search=True, tol=0)
        except Enough:
            ctx.known("pd-nan", "the line search of minimize_primal_dual does not end when the objective is NaN (max_iter_ls is not used)")
    ctx.key("known", name, R.seed)


WORKLOADS = [("callbacks", wl, 3000, 60000), ("trace", wl_trace, 1200, 20000), ("max_iter", wl_maxiter, 150, 2000), ("warnings", wl_warn, 80, 800), ("listed findings", wl_known, 30, 100)]
