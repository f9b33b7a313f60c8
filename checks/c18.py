"""C18: no function modifies what the caller passed."""
import numpy as np
import copt as cp
import copt.constraint as cc
import copt.loss as cl
import copt.penalty as cpn
from copt import tv_prox, utils
from scipy import sparse
from vlib import gen, runs
from vlib.core import digest, Skip

ID = "C18"
RULE = ("random call of every public function and solver, with every array and sparse matrix passed compared byte for byte before and after the call, a second time with read-only arrays, "
        "and with results kept from earlier calls compared at the end; non-trivial: the result is not empty; distinct by (function, digest of the inputs)")
ASSUMPTIONS = ["user functions and callbacks do not modify what they receive", "block proximal operators and update_active_set work in place by design", "proximal operators may return their argument itself"]
REQUIRED = ["solver " + s for s in runs.SOLVERS] + ["losses", "penalties", "constraints", "utils", "read-only inputs", "results not aliased", "earlier results intact", "shared data structures intact",
                                                  "prox outputs not overwritten", "gradients not overwritten"] + ["aliased " + s for s in ("fw", "pg", "apg", "tos", "pd", "saga", "svrg", "sfw")]


def structure(M):
    """Everything a sparse matrix stores, flags included."""
    if not sparse.issparse(M):
        return (M.shape, str(M.dtype), M.flags.writeable, M.strides, M.tobytes())
    out = [M.format, M.shape, str(M.dtype)]
    for nm in ("data", "indices", "indptr", "row", "col", "offsets"):
        a = getattr(M, nm, None)
        if isinstance(a, np.ndarray) and a.dtype != object:
            out += [nm, a.dtype.str, a.tobytes()]
    if M.format in ("lil", "dok"):
        out.append(M.toarray().tobytes())
    return tuple(out)


class Frozen:
    def __init__(self, *objs):
        self.objs = [o for o in objs if isinstance(o, np.ndarray) or sparse.issparse(o)]
        self.before = [structure(o) for o in self.objs]

    def check(self, ctx, what, **info):
        for k, (o, b) in enumerate(zip(self.objs, self.before)):
            ctx.check(structure(o) == b, "%s modified one of its arguments" % what, argument=k, now=o.toarray() if sparse.issparse(o) else o, **info)


def ro(a):
    """The same memory and layout, not writable."""
    a = a.view()
    a.setflags(write=False)
    return a


def wl_solver(ctx, rng):
    R = runs.Run(rng, simple=rng.rand() < 0.7)
    R.info["x0"] = R.x0
    ctx.count("solver " + R.name)
    x0 = R.x0.copy()
    passed = []

    def wrap(name, fn):
        """Also watches the arrays the solver hands to the user functions and gets from them."""
        if name in ("prox_1", "prox_2", "lmo", "fun", "jac", "deriv"):
            def f(*a, **k):
                out = fn(*a, **k)
                vals = out if isinstance(out, tuple) else (out,)
                for v in vals:
                    if isinstance(v, np.ndarray) and name in ("lmo", "fun", "jac", "deriv", "prox_1", "prox_2") and not any(v is q for q in a) and len(passed) < 400:
                        passed.append((name, v, v.tobytes()))
                return out
            return f
        return fn

    fz = Frozen(x0, R.A, R.b, *R.groups, *([R.Lmat] if R.Lmat is not None else []))
    o = R.objects()
    res = R.call(objs=o, x0=x0, wrap=wrap if rng.rand() < 0.5 else None)
    fz.check(ctx, "minimize_%s" % R.name, **R.info)
    ctx.count("shared data structures intact")
    for name, v, b in passed:
        ctx.check(v.tobytes() == b, "an array returned by a user function (%s) was modified afterwards" % name, **R.info)
    if passed:
        ctx.count("gradients not overwritten")
    ctx.check(not np.shares_memory(res.x, x0), "the solution shares the memory of the starting point", **R.info)
    for M in (R.A, R.b):
        a = M.data if sparse.issparse(M) else M
        if isinstance(a, np.ndarray) and a.dtype != object:
            ctx.check(not np.shares_memory(res.x, a), "the solution shares memory with the data", **R.info)
    ctx.count("results not aliased")
    # read-only inputs give the same result
    if rng.rand() < 0.5:
        A, b, Lm = R.A, R.b, R.Lmat
        try:
            R.b = ro(b)
            if isinstance(A, np.ndarray):
                R.A = ro(A)
            elif A.format in ("csr", "csc", "coo"):
                R.A = A.copy()
                for nm in ("data", "indices", "indptr") if A.format != "coo" else ("data", "row", "col"):
                    getattr(R.A, nm).setflags(write=False)
            r2 = R.call(x0=ro(x0))
        finally:
            R.A, R.b = A, b
        # the vertices of the trace ball come from an iterative method with a random start
        ctx.check(getattr(R, "set", "") == "trace" or np.allclose(r2.x, res.x, rtol=1e-9, atol=1e-11), "read-only inputs give another result", x=r2.x, expected=res.x, **R.info)
        ctx.count("read-only inputs")
    ctx.key(R.name, digest(x0, R.D, res.x))
    ctx.sample(**R.info)


def functions(ctx, rng):
    """(name, group, callable, args, in place?) of a random public function."""
    n = gen.size(rng, 0.05)
    v = gen.vec(rng, n)[0]
    w = gen.vec(rng, n)[0]
    s = float(10.0 ** rng.uniform(-3, 2))
    a = float(10.0 ** rng.uniform(-3, 2))
    cut = np.sort(rng.permutation(np.arange(1, n))[: rng.randint(0, n)]) if n > 1 else []
    groups = [g for g in np.split(np.arange(n), cut) if len(g)]
    d = [k for k in range(1, n + 1) if n % k == 0]
    k = d[rng.randint(len(d))]
    shp = (k, n // k)
    m = 1 + rng.randint(6)
    p = min(n, 12)
    A, fmt, D = gen.as_format(rng, gen.dense_matrix(rng, m, p)[0])
    x = v[:p].copy()
    b01, br = rng.rand(m), rng.randn(m)
    kinds = ["penalty", "constraint", "loss", "utils"]
    c = kinds[rng.randint(4)]
    if c == "penalty":
        P = [cpn.L1Norm(a), cpn.GroupL1(a, groups), cpn.FusedLasso(a), cpn.TraceNorm(a, shp), cpn.TotalVariation2D(a, shp, max_iter=5)][rng.randint(5)]
        nm = type(P).__name__
        if nm in ("TotalVariation2D",) and n > 64:
            raise Skip
        return [(nm + ".prox", "penalties", P.prox, (v, s)), (nm + ".__call__", "penalties", P, (v,)),
                ("prox_tv1d", "penalties", tv_prox.prox_tv1d, (v, s)), ("prox_tv1d_rows", "penalties", tv_prox.prox_tv1d_rows, (s, v, shp[0], shp[1])),
                ("prox_tv1d_cols", "penalties", tv_prox.prox_tv1d_cols, (s, v, shp[0], shp[1])),
                ("tv2d_linear_operator", "penalties", tv_prox.tv2d_linear_operator, (shp[0], shp[1]))][[0, 0, 0, 1, 2, 3, 4, 5][rng.randint(8)]]
    if c == "constraint":
        P = [cc.L1Ball(a), cc.L2Ball(a), cc.LinfBall(a), cc.SimplexConstraint(a), cc.TraceBall(a, shp)][rng.randint(5)]
        nm = type(P).__name__
        if np.abs(v).max() / a > 1e9:
            raise Skip
        out = [(nm + ".prox", "constraints", P.prox, (v, s))]
        if hasattr(P, "lmo"):
            out.append((nm + ".lmo", "constraints", P.lmo, (w, v)))
        if nm in ("L1Ball", "TraceBall"):
            out.append((nm + ".__call__", "constraints", P, (v,)))
        if nm == "L1Ball":
            act = {(1.0, int(rng.randint(n))): 0.5, (-1.0, int(rng.randint(n))): 0.5}
            out.append((nm + ".lmo_pairwise", "constraints", P.lmo_pairwise, (w, v, act)))
        out += [("euclidean_proj_simplex", "constraints", cc.euclidean_proj_simplex, (v, a)), ("euclidean_proj_l1ball", "constraints", cc.euclidean_proj_l1ball, (v, a))]
        return out[rng.randint(len(out))]
    if c == "loss":
        L = [cl.LogLoss(A, b01, s), cl.SquareLoss(A, br, s), cl.HuberLoss(A, br, s, a)][rng.randint(3)]
        nm = type(L).__name__
        out = [(nm + ".f_grad", "losses", L.f_grad, (x,), A, L.b), (nm + ".__call__", "losses", L, (x,), A, L.b), (nm + ".f_grad(False)", "losses", lambda q: L.f_grad(q, return_gradient=False), (x,), A, L.b)]
        if nm != "HuberLoss":
            out.append((nm + ".partial_deriv", "losses", L.partial_deriv, (rng.randn(m), L.b)))
        if nm == "LogLoss":
            if rng.rand() < 0.4:
                L.intercept = True
                x = np.append(x, rng.randn())
                p += 1
                out = [(nm + ".f_grad with intercept", "losses", L.f_grad, (x,), A, L.b)]
            out.append((nm + ".hessian_mv", "losses", lambda q, u: L.hessian_mv(q)(u), (x, rng.randn(p)), A, L.b))
            out.append((nm + ".hessian_trace", "losses", lambda q, u: L.hessian_trace(q)(u), (x, rng.randn(p)), A, L.b))
        if min(D.shape) > 1 and np.any(D) and not L.intercept if nm == "LogLoss" else min(D.shape) > 1 and np.any(D):
            out.append((nm + ".lipschitz", "losses", lambda: L.lipschitz, (), A, L.b))
            if hasattr(L, "max_lipschitz"):
                out.append((nm + ".max_lipschitz", "losses", lambda: L.max_lipschitz, (), A, L.b))
        return out[rng.randint(len(out))]
    C = sparse.csr_matrix(A)
    idx = rng.randint(m, size=1 + rng.randint(4))
    B = gen.as_format(rng, rng.randn(m, p))[0]
    f = cl.SquareLoss(D, br)
    out = [("fast_csr_mv", "utils", utils.fast_csr_mv, (C.data, C.indptr, C.indices, x, idx)), ("fast_csr_vm", "utils", utils.fast_csr_vm, (rng.randn(len(idx)), C.data, C.indptr, C.indices, p, idx)),
           ("safe_sparse_add", "utils", utils.safe_sparse_add, (A, B)), ("init_lipschitz", "utils", utils.init_lipschitz, (f.f_grad, x)),
           ("get_max_lipschitz", "utils", utils.get_max_lipschitz, (sparse.csr_matrix(D) if rng.rand() < 0.5 else D, "logloss")), ("parse_step_size", "utils", utils.parse_step_size, ((np.float64(s), "fixed"),))]
    return out[rng.randint(len(out))]


def flat(v, out=None):
    """Arrays of a result."""
    out = [] if out is None else out
    if isinstance(v, np.ndarray):
        out.append(v)
    elif sparse.issparse(v):
        out.append(v.data if v.format in ("csr", "csc", "coo", "dia", "bsr") else np.asarray(v.toarray()))
    elif isinstance(v, (tuple, list)):
        for t in v:
            flat(t, out)
    return out


def wl_fun(ctx, rng):
    kept = []
    for _ in range(1 + rng.randint(6)):
        name, group, fn, args = (t := functions(ctx, rng))[:4]
        watched = [a for a in list(args) + list(t[4:])]
        act = [a for a in args if type(a) is dict]
        acts = [dict(a) for a in act]
        fz = Frozen(*watched)
        info = dict(function=name, args=[a if not sparse.issparse(a) else a.toarray() for a in args])
        out = fn(*args)
        fz.check(ctx, name, **info)
        for a, b in zip(act, acts):
            ctx.check(a == b, "%s modified the active set" % name, **info)
        ctx.count(group)
        # results stay what they were, whatever is called next
        kept += [(name, r, r.copy()) for r in flat(out)]
        # an in-place change of a result must not reach the data
        if name.endswith("f_grad") or "hessian" in name or name.startswith(("fast_csr", "safe_sparse", "Log", "Square", "Huber")):
            for r in flat(out):
                for w in watched:
                    for z in flat(w):
                        if z.dtype != object:
                            ctx.check(not np.shares_memory(r, z), "the result of %s shares memory with an argument" % name, **info)
            ctx.count("results not aliased")
        # frozen arguments are accepted and give the same result
        if args and rng.rand() < 0.5 and not name.startswith(("init_l", "parse", "tv2d", "lip")) and not any(sparse.issparse(a) for a in args):
            out2 = fn(*[ro(a) if isinstance(a, np.ndarray) else a for a in args])
            for r, q in zip(flat(out), flat(out2)):
                ctx.check(r.shape == q.shape and np.allclose(r, q, rtol=1e-7, atol=1e-9 * (1 + np.abs(r).max() if r.size else 1), equal_nan=True), "%s gives another result for read-only arguments" % name, got=q, expected=r, **info)
            ctx.count("read-only inputs")
        ctx.key(name, digest(*[a for a in args if isinstance(a, np.ndarray)]))
    for name, r, c in kept:
        ctx.check(r.tobytes() == c.tobytes(), "an earlier result of %s was overwritten by a later call" % name, result=r, was=c)
    ctx.count("earlier results intact")
    ctx.sample(functions=[k[0] for k in kept][:6])


class Same:
    """A linear operator that gives its argument back."""
    dtype = np.dtype(float)

    def __init__(self, n, copy):
        self.shape = (n, n)
        self.matvec = self.rmatvec = (lambda v: v.copy()) if copy else (lambda v: v)


def wl_alias(ctx, rng):
    """User functions that give back their very argument, or an array they keep, are as good as those that return copies of it."""
    n = 1 + rng.randint(8)
    which = ["fw", "pg", "apg", "tos", "pd", "saga", "svrg", "sfw"][rng.randint(8)]
    c = rng.randn(n) * [0.1, 1.0][rng.randint(2)]
    x0 = rng.randn(n)
    kind, scale, r = ["half", "linear"][rng.randint(2)], [1.0, 3.0][rng.randint(2)], rng.uniform(0.3, 2)
    mi, st, ls, seed, jac = 1 + rng.randint(12), 10 ** rng.uniform(-1, 0.3), bool(rng.rand() < 0.5), int(rng.randint(2 ** 31)), [True, "callable"][rng.randint(2)]
    k1, k2 = ["same", "box", "l1ball"][rng.randint(3)], ["same", "box", "none"][rng.randint(3)]
    useL = rng.rand() < 0.6
    D = rng.randn(4, n)
    bat = int([1, 2, 4][rng.randint(3)])
    vr = ["SAG", "SAGA", "MHK", "LF"][rng.randint(4)]

    def run(copy):
        kept = c.copy()
        out = (lambda v: v.copy()) if copy else (lambda v: v)

        def f_grad(x, return_gradient=True):
            v, g = (0.5 * float(x.dot(x)), x) if kind == "half" else (float(c.dot(x)), kept)
            return (v, out(g)) if return_gradient else v

        def prox(k):
            if k == "none":
                return None
            return {"same": lambda v, t: out(v), "box": lambda v, t: out(v) if np.abs(v).max() <= r else np.clip(v, -r, r), "l1ball": lambda v, t: out(cc.L1Ball(r).prox(v, t))}[k]

        deriv = lambda p, y: out(p)  # noqa: E731
        x = x0.copy()
        np.random.seed(seed)
        if which == "fw":
            x /= np.abs(x).sum() / r * 1.5
            a = (f_grad, True) if jac is True else (lambda q: f_grad(q, False), lambda q: f_grad(q)[1])
            res = cp.minimize_frank_wolfe(a[0], x, cc.L1Ball(r).lmo, jac=a[1], step="backtracking" if ls else "sublinear", lipschitz=None if kind == "half" else 1.0, max_iter=mi)
        elif which in ("pg", "apg"):
            a = (f_grad, True) if jac is True else (lambda q: f_grad(q, False), lambda q: f_grad(q)[1])
            res = cp.minimize_proximal_gradient(a[0], x, prox(k1 if kind == "half" else "l1ball"), jac=a[1], accelerated=which == "apg", step="backtracking" if ls else (lambda d: 0.5), max_iter=mi)
        elif which == "tos":
            res = cp.minimize_three_split(f_grad, x, prox(k1), prox(k2), step_size=st, line_search=ls, max_iter=mi)
        elif which == "pd":
            res = cp.minimize_primal_dual(f_grad, x, prox(k1), prox(k2), L=Same(n, copy) if useL else None, step_size=min(st, 0.5), line_search=ls, max_iter=mi)
        elif which in ("saga", "svrg"):
            res = getattr(cp, "minimize_" + which)(deriv, D, np.zeros(4), x, st / 30, max_iter=mi, callback=None)
        else:
            x /= np.abs(x).sum() / r * 1.5
            res = cp.minimize_sfw(deriv, D, np.zeros(4), x, cc.L1Ball(r).lmo, batch_size=bat, variant=vr, max_iter=mi, tol=0)
        ctx.check(np.array_equal(kept, c), "an array returned by a user function was modified", mech="mutation", solver=which)
        return res

    a, b = run(True), run(False)
    ctx.check(np.array_equal(a.x, b.x, equal_nan=True) and a.nit == b.nit and bool(a.success) == bool(b.success), "user functions that return their argument (not a copy of it) give another result", solver=which, f=kind, prox_1=k1, prox_2=k2,
              operator=useL, line_search=ls, copies=a.x, same=b.x, x0=x0)
    ctx.count("aliased " + which)
    ctx.key("alias", which, digest(a.x), kind, k1, k2)


def wl_prox(ctx, rng):
    """Repeated use of one object: results of earlier calls, and the points passed, stay intact."""
    n = gen.size(rng, 0.02)
    if n > 70:
        raise Skip
    d = [k for k in range(1, n + 1) if n % k == 0]
    k = d[rng.randint(len(d))]
    a = float(10.0 ** rng.uniform(-2, 1))
    P = [cpn.L1Norm(a), cpn.GroupL1(a, [np.arange(n)]), cpn.FusedLasso(a), cpn.TraceNorm(a, (k, n // k)), cpn.TotalVariation2D(a, (k, n // k), max_iter=4), cc.L1Ball(a), cc.L2Ball(a), cc.LinfBall(a),
         cc.SimplexConstraint(a), cc.TraceBall(a, (k, n // k))][rng.randint(10)]
    log = []
    for _ in range(4):
        v = gen.vec(rng, n, ["normal", "ties", "zeros", "sparse", "steps"][rng.randint(5)])[0]
        if log and rng.rand() < 0.3:
            v = log[-1][2]  # the previous result is the next point
        c = v.copy()
        out = P.prox(v, 0.7)
        log.append((v, c, out, np.array(out)))
        for (v_, c_, o_, oc_) in log:
            ctx.check(np.array_equal(v_, c_), "%s.prox modified a point passed to it" % type(P).__name__, now=v_, was=c_)
            ctx.check(np.array_equal(o_, oc_), "%s.prox overwrote an earlier result" % type(P).__name__, now=o_, was=oc_)
    ctx.count("prox outputs not overwritten")
    ctx.key("prox", type(P).__name__, digest(*[t[1] for t in log]))


WORKLOADS = [("solvers", wl_solver, 2500, 50000), ("functions", wl_fun, 3000, 60000), ("repeated prox", wl_prox, 1200, 20000), ("aliased returns", wl_alias, 1500, 25000)]
