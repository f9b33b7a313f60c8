"""C28: memory is proportional to the data; sparse input is never made dense; nothing is kept."""
import gc
import resource
import tracemalloc

import numpy as np
from scipy import sparse
import copt as cp
import copt.constraint as cc
import copt.loss as cl
import copt.penalty as cpn
from copt import tv_prox, utils
from vlib.core import digest, Skip, Violation

ID = "C28"
RULE = ("losses, kernels, penalties, operators and solvers on sparse matrices whose dense form is at least fifty times larger than their entries and dimensions together, with the peak, the growth with the number of "
        "iterations and the remainder of the traced memory compared with the size of the input; non-trivial: the call allocates more than a kilobyte; distinct by (function, sizes, digest of the data)")
ASSUMPTIONS = ["memory as seen by tracemalloc (numpy reports its buffers to it)", "a fixed allowance of 3 MB for lazily imported modules, 16 times the size of the input for temporaries"]
REQUIRED = ["losses", "Hessian products", "constants", "kernels", "penalties", "operators"] + ["solver " + s for s in ("fw", "fwp", "pg", "apg", "tos", "pd", "saga", "svrg", "vrtos", "sfw")] + [
    "growth " + s for s in ("fw", "fwp", "pg", "apg", "tos", "pd", "saga", "svrg", "vrtos", "sfw")] + ["released"]
MB = 1 << 20


def data(rng, n, p, per_row=None, full=True):
    full = [None, "row", "row", "column"][rng.randint(4)] if full else None
    per_row = per_row or (3 if n < 5000 else 1)
    k = per_row * n
    A = sparse.coo_matrix((rng.randn(k), (np.repeat(np.arange(n), per_row), rng.randint(p, size=k))), shape=(n, p))
    if full == "row":
        A = (A + sparse.coo_matrix((rng.randn(p) / np.sqrt(p), (np.full(p, rng.randint(n)), np.arange(p))), shape=(n, p))).tocoo()
    elif full == "column":
        A = (A + sparse.coo_matrix((rng.randn(n), (np.arange(n), np.full(n, rng.randint(p)))), shape=(n, p))).tocoo()
    f = ["csr", "csc", "coo", "csr", "csr"][rng.randint(5)]
    A = A.asformat(f)
    return A, f + (" full " + full if full else "")


def traced(fn):
    """(peak, what is still held while the result is alive, what is held once it is dropped, result digest)"""
    gc.collect()
    old = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        now = int(f.read().split()[0]) * resource.getpagesize()
    # what would not fit ends in a MemoryError, not with the death of the process
    resource.setrlimit(resource.RLIMIT_AS, (now + 1536 * MB, old[1]))
    tracemalloc.start()
    try:
        base = tracemalloc.get_traced_memory()[0]
        r = fn()
        peak = tracemalloc.get_traced_memory()[1] - base
        gc.collect()
        held = tracemalloc.get_traced_memory()[0] - base
        del r
        gc.collect()
        left = tracemalloc.get_traced_memory()[0] - base
    except MemoryError:
        raise Violation("a call needs more than 1.5 GB for an input of at most a few MB")
    finally:
        tracemalloc.stop()
        resource.setrlimit(resource.RLIMIT_AS, old)
    return peak, held, left


def judge(ctx, what, fn, unit, dense, **info):
    bound = 3 * MB + 16 * unit
    if dense < 1.3 * bound:
        raise Skip
    peak, held, left = traced(fn)
    ctx.check(peak <= bound, "%s takes far more memory than its input" % what, peak_bytes=peak, bound=bound, input_bytes=unit, dense_bytes=dense, **info)
    ctx.check(left <= MB + unit // 2, "%s keeps memory after its results are gone" % what, left_bytes=left, input_bytes=unit, **info)
    ctx.count("released")
    return peak


def sizes(rng, many):
    """(n, p) with n p about 3e7 to 6e7; few samples unless many"""
    big, small = int(rng.randint(30000, 60000)), int(rng.randint(700, 1100))
    return (big, small) if many else (small, big)


def wl_loss(ctx, rng):
    n, p = sizes(rng, rng.rand() < 0.5)
    A, fmt = data(rng, n, p)
    unit = 16 * A.nnz + 8 * (n + p)
    dense = n * p  # even as bytes
    kind = ["log", "square", "huber"][rng.randint(3)]
    b = rng.randint(2, size=n).astype(float) if kind == "log" else rng.randn(n)
    C = {"log": cl.LogLoss, "square": cl.SquareLoss, "huber": cl.HuberLoss}[kind]
    x = rng.randn(p) * 0.1
    s = rng.randn(p)
    q = rng.randint(5)
    info = dict(loss=kind, fmt=fmt, n=n, p=p)
    if q == 0:
        judge(ctx, "the value of a loss", lambda: C(A, b, 0.1)(x), unit, dense, **info)
        ctx.count("losses")
    elif q == 1:
        judge(ctx, "the gradient of a loss", lambda: C(A, b, 0.1).f_grad(x), unit, dense, **info)
        ctx.count("losses")
    elif q == 2:
        kind = "log"
        b = rng.randint(2, size=n).astype(float)
        inter = rng.rand() < 0.3
        attr = ["hessian_mv", "hessian_trace"][rng.randint(2)]
        xx, ss = (np.append(x, 0.1), np.append(s, 0.2)) if inter else (x, s)

        def hess():
            loss = cl.LogLoss(A, b, 0.1)
            loss.intercept = inter
            return getattr(loss, attr)(xx)(ss)
        judge(ctx, "a product with the Hessian", hess, unit, dense, intercept=inter, **info)
        ctx.count("Hessian products")
    elif q == 3:
        judge(ctx, "lipschitz", lambda: C(A, b, 0.1).lipschitz, unit, dense, **info)
        ctx.count("constants")
    else:
        if kind == "huber":
            raise Skip
        judge(ctx, "max_lipschitz", lambda: C(A, b, 0.1).max_lipschitz, unit, dense, **info)
        ctx.count("constants")
    ctx.key("loss", q, kind, fmt, n, p, digest(x[:20]))


def wl_parts(ctx, rng):
    """Kernels, penalties, operators: linear in the size of their input."""
    q = rng.randint(9)
    if q <= 1:
        n, p = sizes(rng, rng.rand() < 0.5)
        A, fmt = data(rng, n, p)
        A = A.tocsr()
        unit = 16 * A.nnz + 8 * (n + p)
        idx = rng.randint(n, size=300)
        if q == 0:
            x = rng.randn(p)
            judge(ctx, "fast_csr_mv", lambda: utils.fast_csr_mv(A.data, A.indptr, A.indices, x, idx), unit, n * p)
        else:
            v = rng.randn(300)
            judge(ctx, "fast_csr_vm", lambda: utils.fast_csr_vm(v, A.data, A.indptr, A.indices, p, idx), unit, n * p)
        ctx.count("kernels")
        ctx.key("kernel", q, n, p)
        return
    n = int(rng.randint(12000, 20000))
    unit = 16 * n
    x = rng.randn(n)
    groups = [np.arange(i, min(i + 5, n)) for i in range(0, n, 5)]
    dense = n * n // 4
    r = int(rng.randint(60, 110))
    c = n // r
    cases = {2: [("L1Norm.prox", lambda: cpn.L1Norm(0.3).prox(x, 0.7)), ("GroupL1.prox", lambda: cpn.GroupL1(0.3, groups).prox(x, 0.7)), ("L1Norm()", lambda: cpn.L1Norm(0.3)(x)), ("FusedLasso()", lambda: cpn.FusedLasso(0.3)(x))],
             3: [("prox_factory of L1Norm", lambda: cpn.L1Norm(0.3).prox_factory(n)), ("prox_factory of GroupL1", lambda: cpn.GroupL1(0.3, groups).prox_factory(n)),
                 ("prox_1_factory", lambda: cpn.FusedLasso(0.3).prox_1_factory(n)), ("prox_2_factory", lambda: cpn.FusedLasso(0.3).prox_2_factory(n))],
             4: [("prox_tv1d", lambda: tv_prox.prox_tv1d(x[:4000], 0.4))],
             5: [("TotalVariation2D()", lambda: cpn.TotalVariation2D(0.3, (r, c))(x[:r * c])), ("L1Ball()", lambda: cc.L1Ball(1.0)(x))],
             6: [("projection on the l1 ball", lambda: cc.L1Ball(3.0).prox(x, 1)), ("projection on the simplex", lambda: cc.SimplexConstraint(3.0).prox(x, 1)), ("projection on the l2 ball", lambda: cc.L2Ball(3.0).prox(x, 1))],
             7: [("L1Ball.lmo", lambda: cc.L1Ball(3.0).lmo(x, x * 0)), ("SimplexConstraint.lmo", lambda: cc.SimplexConstraint(3.0).lmo(x, x * 0)), ("L1Ball.lmo_pairwise", lambda: cc.L1Ball(3.0).lmo_pairwise(x, x * 0, {(1.0, 0): 1.0}))],
             8: [("sample_batches", lambda: utils.sample_batches(n, 4, 50)), ("safe_sparse_add", lambda: utils.safe_sparse_add(sparse.eye(n, format="csr"), sparse.eye(n, format="csc")))]}[q]
    name, fn = cases[rng.randint(len(cases))]
    judge(ctx, name, fn, unit * (4 if name == "sample_batches" else 1), dense, n=n)
    ctx.count("operators" if q in (5, 8) else "penalties")
    ctx.key("part", name, n)


def solver(name, A, b, p, rng, info):
    """function of max_iter"""
    n = A.shape[0]
    x0 = np.zeros(p)
    loss = cl.LogLoss(A, b, 0.01)
    l1 = cpn.L1Norm(1e-3)
    groups = [np.arange(i, min(i + 4, p)) for i in range(0, p, 4)]
    ball = cc.L1Ball(2.0)
    if name == "fw":
        set_ = [ball, cc.SimplexConstraint(2.0)][rng.randint(2)]
        x1 = x0.copy()
        x1[3] = 2.0
        step = ["backtracking", "DR", "sublinear"][rng.randint(3)]
        info.update(step=step, set=type(set_).__name__)
        return lambda k: cp.minimize_frank_wolfe(loss.f_grad, x1, set_.lmo, jac=True, step=step, lipschitz=1.0 + 0 * k, max_iter=k, tol=0)
    if name == "fwp":
        x1 = x0.copy()
        x1[3] = 2.0
        return lambda k: cp.minimize_frank_wolfe(loss.f_grad, x1, ball.lmo_pairwise, x0_rep=(1.0, 3), variant="pairwise", jac=True, step="backtracking", lipschitz=1.0, max_iter=k, tol=0)
    if name in ("pg", "apg"):
        tr = rng.rand() < 0.5
        return lambda k: cp.minimize_proximal_gradient(loss.f_grad, x0, prox=l1.prox, jac=True, max_iter=k, tol=0, accelerated=name == "apg", trace_certificate=tr)
    if name == "tos":
        g = cpn.GroupL1(1e-3, groups[:200])
        return lambda k: cp.minimize_three_split(loss.f_grad, x0, l1.prox, g.prox, max_iter=k, tol=0)
    if name == "pd":
        D = sparse.diags([np.ones(p), -np.ones(p - 1)], [0, 1]).asformat(["csr", "csc"][rng.randint(2)])
        ls = bool(rng.randint(2))
        info.update(line_search=ls)
        return lambda k: cp.minimize_primal_dual(loss.f_grad, x0, l1.prox, cc.LinfBall(0.1).prox, L=D, step_size=0.1, line_search=ls, max_iter=k, tol=0)
    if name in ("saga", "svrg"):
        # without ridge, so that a step touches few blocks only
        loss = cl.LogLoss(A, b, 0.0)
        ss = 1 / (3 * loss.max_lipschitz)
        pen = [None, l1.prox_factory(p), cpn.GroupL1(1e-3, groups).prox_factory(p), cpn.FusedLasso(1e-3).prox_1_factory(p)][rng.randint(4)]
        f = cp.minimize_saga if name == "saga" else cp.minimize_svrg
        return lambda k: f(loss.partial_deriv, A, b, x0, prox=pen, step_size=ss, max_iter=k, tol=0)
    if name == "vrtos":
        loss = cl.LogLoss(A, b, 0.0)
        ss = 1 / (3 * loss.max_lipschitz)
        pen = [l1.prox_factory(p), cpn.GroupL1(1e-3, groups).prox_factory(p), cpn.FusedLasso(1e-3).prox_1_factory(p)][rng.randint(3)]
        return lambda k: cp.minimize_vrtos(loss.partial_deriv, A, b, x0, ss, prox_1=pen, prox_2=cpn.FusedLasso(1e-3).prox_2_factory(p), max_iter=k, tol=0)
    bs = [1, 20, n][rng.randint(3)]
    v = ["SAG", "SAGA", "MHK", "LF"][rng.randint(4)]
    info.update(batch=bs, variant=v)
    it = max(1, n // bs)
    return lambda k: cp.minimize_sfw(loss.partial_deriv, A, b, x0, ball.lmo, batch_size=bs, variant=v, max_iter=k, tol=0)


NAMES = ["fw", "fwp", "pg", "apg", "tos", "pd", "saga", "svrg", "vrtos", "sfw"]


def wl_solver(ctx, rng):
    """Data far too large to be made dense."""
    name = NAMES[rng.randint(len(NAMES))]
    n, p = sizes(rng, name not in ("saga", "svrg", "vrtos", "sfw") and rng.rand() < 0.5)
    if name in ("saga", "svrg", "vrtos", "sfw"):
        n //= 2
        p *= 2
    A, fmt = data(rng, n, p, full=name not in ("saga", "svrg", "vrtos"))
    b = rng.randint(2, size=n).astype(float)
    info = dict(solver=name, n=n, p=p, fmt=fmt)
    run = solver(name, A, b, p, rng, info)
    unit = 16 * A.nnz + 8 * (n + p) + (24 * p if name == "pd" else 0)
    st = np.random.get_state()
    np.random.seed(int(rng.randint(2 ** 31)))
    try:
        peak = judge(ctx, "a solver", lambda: run(1 if name in ("saga", "svrg", "vrtos", "sfw") else 3), unit, n * p, **info)
    finally:
        np.random.set_state(st)
    ctx.count("solver " + name)
    ctx.key("solver", name, n, p, digest(b[:50]))
    ctx.sample(peak=peak, input=unit, **info)


def wl_growth(ctx, rng):
    """The memory of a run does not depend on the number of its iterations."""
    name = NAMES[rng.randint(len(NAMES))]
    stoch = name in ("saga", "svrg", "vrtos", "sfw")
    n, p = (12, int(rng.randint(3000, 6000))) if stoch else (40, int(rng.randint(8000, 20000)))
    A, fmt = data(rng, n, p, 8, full=name == "sfw" or not stoch)
    b = rng.randint(2, size=n).astype(float)
    info = dict(solver=name, n=n, p=p, fmt=fmt)
    run = solver(name, A, b, p, rng, info)
    k1, k2 = (2, 22) if stoch else (4, 44)
    st = np.random.get_state()
    got = []
    try:
        for k in (k1, k1, k2):
            np.random.seed(1)
            got.append(traced(lambda: run(k)))
    finally:
        np.random.set_state(st)
    vec = 8 * p
    slack = 4 * vec + (k2 - k1) * (600 if name != "sfw" else 600 * n)
    for j, what in ((0, "peak"), (1, "memory held by the result"), (2, "memory that remains")):
        d = got[2][j] - max(got[0][j], got[1][j])
        ctx.check(d <= slack, "the %s of a run grows with the number of its iterations" % what, bytes_short=got[1][j], bytes_long=got[2][j], vector_bytes=vec, iterations=(k1, k2), **info)
    ctx.check(got[1][2] - got[0][2] <= vec // 2 + 65536 and got[1][2] <= vec // 2 + 65536, "memory remains in use after each run", first=got[0][2], second=got[1][2], vector_bytes=vec, **info)
    ctx.count("growth " + name)
    ctx.key("growth", name, p, digest(b), digest(np.asarray(A.todense()).ravel()[:100]))


WORKLOADS = [("losses", wl_loss, 200, 3000, {"heavy": True}), ("parts", wl_parts, 80, 3000, {"heavy": True}), ("solvers", wl_solver, 80, 1200, {"heavy": True}), ("growth", wl_growth, 80, 2000, {"heavy": True})]
