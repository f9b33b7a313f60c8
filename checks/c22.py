"""C22: compiled (numba) and interpreted code give the same results, without accesses out of bounds."""
import importlib
import os

import numpy as np
import numba
import copt
from copt import tv_prox, utils
import copt.penalty as cpn
import copt.loss as cl
from scipy import sparse
from vlib import gen, prob, runs, twin
from vlib.core import digest, Skip

ID = "C22"
RULE = ("same call on the compiled package, with the bounds of every array access checked, and on the same source run by the interpreter; non-trivial: a result different from the input; distinct by digest of the result")
ASSUMPTIONS = ["numba 0.68 with NUMBA_BOUNDSCHECK=1", "the order of the samples is drawn outside of compiled code, except the batches of minimize_sfw, compared when they hold all the samples"]
REQUIRED = ["compiled functions", "prox_tv1d", "long signals", "prox_tv1d_cols", "prox_tv1d_rows", "prox_tv2d", "fast_csr_mv", "fast_csr_vm", "batches", "derivatives", "block proximal operators", "saga", "svrg", "vrtos", "sfw", "sfw partial batches"]

twin.load()
py_tv, py_utils, py_pen, py_loss = (twin.module("copt." + m) for m in ("tv_prox", "utils", "penalty", "loss"))


def dispatcher(f):
    return hasattr(f, "py_func")


def both(ctx, what, compiled, interpreted, args, **info):
    """Calls both on copies of the arguments; returns (result, arguments after the call)."""
    out = []
    for f in (compiled, interpreted):
        a = [x.copy() if isinstance(x, np.ndarray) and x.flags.writeable else x for x in args]
        r = f(*a)
        out.append((r, a))
    (r, a), (s, b) = out
    ctx.count(what)
    for u, v, w in [(r, s, "result")] + [(u, v, "argument %d" % k) for k, (u, v) in enumerate(zip(a, b)) if isinstance(u, np.ndarray)]:
        u, v = np.asarray(u), np.asarray(v)
        ctx.check(u.shape == v.shape and (u.dtype == v.dtype or {str(u.dtype), str(v.dtype)} == {"float32", "float64"}), "%s: the %s of the compiled code has another shape or type" % (what, w), got=(u.shape, str(u.dtype)), expected=(v.shape, str(v.dtype)), **info)
        if v.dtype.kind == "f":
            ok = np.isfinite(v)
            eps = 1e-5 if np.float32 in (u.dtype, v.dtype) else 1e-12
            sc = max([1e-300] + [np.abs(x).max() for x in args if isinstance(x, np.ndarray) and x.size and x.dtype.kind == "f" and np.all(np.isfinite(x))])
            ctx.check(np.array_equal(ok, np.isfinite(u)) and np.all(np.abs(u[ok] - v[ok]) <= eps * max(sc, np.abs(v[ok]).max() if ok.any() else 0)), "%s: the %s of the compiled code is different" % (what, w), got=u, expected=v, **info)
        elif v.dtype.kind in "iub":
            ctx.check(np.array_equal(u, v), "%s: the %s of the compiled code is different" % (what, w), got=u, expected=v, **info)
    return r, a


def wl_tv(ctx, rng):
    n = gen.size(rng, 0.05)
    x = gen.vec(rng, n)[0]
    lam = 10.0 ** rng.uniform(-3, 2) if rng.rand() < 0.9 else 0.0
    if rng.rand() < 0.3:
        x = np.round(x)
        lam = float(rng.randint(4)) / 2
    lay = ["plain", "plain", "strided", "reversed", "float32"][rng.randint(5)]
    x = gen.layout(rng, x, lay)[0] if lay != "plain" else x
    if not np.all(np.isfinite(x)) or np.abs(x.astype(float)).max() > 1e30:
        raise Skip
    # in single precision ties of the slopes can be broken another way, with the same projection
    if lay == "float32":
        x = np.round(x * 8) / 8 if np.abs(x).max() < 1e3 else np.round(x)
        lam = round(lam * 8) / 8
    r, a = both(ctx, "prox_tv1d", tv_prox.prox_tv1d, py_tv.prox_tv1d, [x, lam], layout=lay, lam=lam, x=np.asarray(x, float))
    nr = [d for d in range(1, n + 1) if n % d == 0]
    nr = nr[rng.randint(len(nr))]
    x = np.ascontiguousarray(x)
    for nm in ("prox_tv1d_cols", "prox_tv1d_rows"):
        q = both(ctx, nm, getattr(tv_prox, nm), getattr(py_tv, nm), [lam, x, nr, n // nr], lam=lam, x=np.asarray(x, float), shape=(nr, n // nr))[0]
        if not np.array_equal(q, x):
            ctx.key(nm, digest(q))
    if n <= 40 and rng.rand() < 0.2:
        both(ctx, "prox_tv2d", tv_prox.prox_tv2d, py_tv.prox_tv2d, [x.astype(float), lam, nr, n // nr], lam=lam, shape=(nr, n // nr))
    if not np.array_equal(r, x):
        ctx.key("tv", digest(r))
    if dispatcher(tv_prox._prox_tv1d if hasattr(tv_prox, "_prox_tv1d") else tv_prox.prox_tv1d_cols):
        ctx.count("compiled functions")


def wl_long(ctx, rng):
    """Signals longer than what a narrow index holds, against the optimality conditions."""
    n = [33000, 40000, 66000, 70000][rng.randint(4)] + rng.randint(1000)
    kind = rng.randint(3)
    x = [rng.randn(n).cumsum() * 0.01, rng.randn(n), np.repeat(rng.randn(n // 50 + 1), 50)[:n]][kind]
    lam = 10.0 ** rng.uniform(-2, 1.5)
    z = tv_prox.prox_tv1d(x, lam) if rng.rand() < 0.5 else (tv_prox.prox_tv1d_cols(lam, x, n, 1) if rng.rand() < 0.5 else tv_prox.prox_tv1d_rows(lam, x, 1, n))
    u = np.cumsum(x - z)
    sc = np.abs(np.cumsum(x)).max() + np.abs(x).sum() * 1e-3 + lam
    tol = 1e-9 * sc
    ctx.check(abs(u[-1]) <= tol and np.all(np.abs(u) <= lam + tol), "proximal operator of a long signal: the dual variable is outside of its bounds", n=n, lam=lam, worst=float(np.abs(u).max()))
    d = np.diff(z)
    j = np.abs(d) > 1e-9 * (np.abs(x).max() + 1)
    ctx.check(np.all(np.abs(u[:-1][j] + lam * np.sign(d[j])) <= tol), "proximal operator of a long signal: a jump where the dual variable is not at its bound", n=n, lam=lam)
    ctx.count("long signals")
    ctx.key("long", digest(z))


def wl_kernels(ctx, rng):
    n, p = gen.size(rng, 0.03), gen.size(rng, 0.03)
    if n * p > 30000:
        raise Skip
    A0, _ = gen.dense_matrix(rng, n, p)
    A, fmt, D = gen.as_format(rng, A0, allow=["csr", "csr_unsorted", "csr_explicit0", "csr_dup", "csr_emptyrows"])
    m = [0, 1, 2, n, 3 * n][rng.randint(5)]
    idx = rng.randint(n, size=m).astype([np.int64, np.int32][rng.randint(2)])
    x = gen.vec(rng, p)[0]
    if np.abs(x).max() > 1e100:
        raise Skip
    y = both(ctx, "fast_csr_mv", utils.fast_csr_mv, py_utils.fast_csr_mv, [A.data, A.indptr, A.indices, x, idx], n=n, p=p, rows=m)[0]
    v = rng.randn(m)
    z = both(ctx, "fast_csr_vm", utils.fast_csr_vm, py_utils.fast_csr_vm, [v, A.data, A.indptr, A.indices, p, idx], n=n, p=p, rows=m)[0]
    if np.any(z):
        ctx.key("kernels", digest(y, z))
    if dispatcher(utils.fast_csr_mv):
        ctx.count("compiled functions")


def wl_batches(ctx, rng):
    """Batches drawn by parallel compiled code."""
    n = 1 + rng.randint(30)
    bs = [1, n, 1 + rng.randint(n)][rng.randint(3)]
    nb = [1, 2, 40][rng.randint(3)]
    idx = utils.sample_batches(n, nb, bs)
    ctx.check(idx.shape == (nb * bs,) and idx.min() >= 0 and idx.max() < n, "sampled index out of range", got=idx, n=n)
    for k in range(nb):
        ctx.check(len(set(idx[k * bs:(k + 1) * bs].tolist())) == bs, "a sample is drawn twice in a batch", got=idx[k * bs:(k + 1) * bs], n=n, size=bs)
        ctx.count("batches")
    if nb == 40 and n > 1:
        N = 0
        c = np.zeros(n)
        for _ in range(20):
            c += np.bincount(utils.sample_batches(n, nb, bs), minlength=n)
            N += nb
        q = bs / n
        ctx.check(np.all(np.abs(c - N * q) <= 9 * np.sqrt(N * q * (1 - q)) + 1), "the samples are not uniform", counts=c, n=n, size=bs)
    ctx.key("batches", digest(idx))


def wl_deriv(ctx, rng):
    kind = ["log", "square"][rng.randint(2)]
    n = 1 + rng.randint(20)
    b = rng.rand(n) if kind == "log" else rng.randn(n)
    if rng.rand() < 0.3:
        b = rng.randint(2, size=n)
    p = gen.vec(rng, n)[0]
    if rng.rand() < 0.2:
        p = p.astype(np.float32)
    A = rng.randn(n, 3)
    C, D = (cl.LogLoss, py_loss.LogLoss) if kind == "log" else (cl.SquareLoss, py_loss.SquareLoss)
    f, g = C(A, b).partial_deriv, D(A, b).partial_deriv
    for k in range(20):
        r = both(ctx, "derivatives", f, g, [p, b], loss=kind, p=np.asarray(p, float))[0]
        p = (gen.vec(rng, n)[0]).astype(p.dtype)
    if dispatcher(f):
        ctx.count("compiled functions")
    ctx.key("deriv", kind, digest(r))


def wl_block(ctx, rng):
    """Block proximal operators: one compilation, many points."""
    p = 1 + rng.randint(12)
    s = [0.0, 0.3, 1.0][rng.randint(3)]
    k = rng.randint(4)
    groups, g = [], 0
    while g < p:
        w = 1 + rng.randint(4)
        if rng.rand() < 0.8:
            groups.append(np.arange(g, min(g + w, p)))
        g += w
    make = {0: lambda m: m.L1Norm(s).prox_factory(p), 1: lambda m: m.GroupL1(s, groups or [np.arange(p)]).prox_factory(p), 2: lambda m: m.FusedLasso(s).prox_1_factory(p), 3: lambda m: m.FusedLasso(s).prox_2_factory(p)}[k]
    (f, B), (g, B2) = make(cpn), make(py_pen)
    ctx.check((B != B2).nnz == 0, "the blocks of the compiled package are different")
    nb = B.shape[0]
    for _ in range(40):
        # samples touching random blocks
        m = 1 + rng.randint(4)
        S = sparse.csr_matrix(rng.rand(m, nb) < 0.6)
        d = np.abs(gen.vec(rng, nb)[0])
        d = np.minimum(d, 1e3) + 0.1
        x = gen.vec(rng, p)[0]
        x = x / max(1.0, np.abs(x).max() / 1e6)
        if rng.rand() < 0.3:
            x = np.round(x)
        r, a = both(ctx, "block proximal operators", f, g, [x, rng.randint(m), S.indices, S.indptr, d, 10.0 ** rng.uniform(-3, 1)], kind=k, p=p, strength=s)
        if not np.array_equal(a[0], x):
            ctx.key("block", k, digest(a[0]))
    if dispatcher(f):
        ctx.count("compiled functions")


def wl_solver(ctx, rng):
    name = ["saga", "svrg", "vrtos", "sfw"][rng.randint(4)]
    R = runs.Run(rng, name=name, simple=True)
    over = {}
    if sparse.issparse(R.A) is False and R.A.dtype == np.float32:
        over["tolerance"] = 1
    if name == "sfw":
        # ties of the oracle are broken by rounding errors
        R.conf["batch_size"] = R.n
        R.b = R.b + (0.01 * rng.randn(R.n) if R.kind != "log" else 0)
    R.tol = 0.0
    shown = {0: [], 1: []}

    def run(k):
        tm = runs_margins(R) if name == "sfw" else None
        return R.call(callback=lambda dl: shown[k].append(np.array(dl["x"])), wrap=tm)

    a = run(0)
    ma = getattr(R, "margin", np.inf)
    with twin.active():
        b = run(1)
    ctx.count(name)
    s = max(np.abs(v).max() for v in shown[1]) + 1e-3 if shown[1] else 1.0
    if name == "sfw" and min(ma, R.margin) < 1e-6:
        raise Skip
    if not np.isfinite(s) or s > 1e8:
        raise Skip
    ctx.check(len(shown[0]) == len(shown[1]), "the compiled solver makes another number of steps", got=len(shown[0]), expected=len(shown[1]), **R.info)
    for k, (u, v) in enumerate(zip(shown[0], shown[1])):
        ctx.check(np.all(np.abs(u - v) <= 1e-8 * s), "the iterates of the compiled solver are different", epoch=k, got=u, expected=v, **R.info)
    ctx.check(np.all(np.abs(a.x - b.x) <= 1e-8 * s) and set(a.keys()) == set(b.keys()), "the solution of the compiled solver is different", got=a.x, expected=b.x, **R.info)
    if not np.array_equal(a.x, R.x0):
        ctx.key(name, digest(a.x))
    ctx.sample(**R.info)


def runs_margins(R):
    from checks.c20 import margins
    return margins(R)


def wl_sfw(ctx, rng):
    """Compiled sampling of partial batches: feasible iterates, estimates within reach of the data."""
    R = runs.Run(rng, name="sfw", simple=True)
    R.conf["batch_size"] = 1 + rng.randint(R.n)
    rad = R.radius
    D = np.asarray(R.A.todense() if sparse.issparse(R.A) else R.A, float)

    def cb(dl):
        x = dl["x"]
        ctx.check(np.abs(x).sum() <= rad * (1 + 1e-9) and (R.set != "simplex" or (x.min() >= -1e-12 and abs(x.sum() - rad) <= 1e-9 * rad)), "iterate outside of the set", x=x, **R.info)
        ctx.count("sfw partial batches")

    r = R.call(callback=cb)
    ctx.check(np.all(np.isfinite(r.x)), "the solution is not finite", **R.info)
    ctx.key("sfw", digest(r.x))


def worker_init():
    numba.set_num_threads(min(2, numba.config.NUMBA_NUM_THREADS))


WORKLOADS = [("solvers", wl_solver, 56, 2500, {"heavy": True}), ("block prox", wl_block, 40, 1000, {"heavy": True}), ("derivatives", wl_deriv, 24, 500, {"heavy": True}), ("sfw", wl_sfw, 16, 400, {"heavy": True}),
             ("long", wl_long, 40, 1000), ("tv", wl_tv, 1000, 30000), ("kernels", wl_kernels, 600, 15000), ("batches", wl_batches, 300, 8000)]
