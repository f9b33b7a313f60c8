"""C20: equivalent forms of the inputs give the same result."""
import numpy as np
import copt as cp
import copt.constraint as cc
import copt.loss as cl
import copt.penalty as cpn
from scipy import sparse
from vlib import gen, prob, runs
from vlib.core import digest, Skip
from checks.c13 import Duck

ID = "C20"
RULE = ("random solver call repeated with an equivalent form of one of its inputs: container, integer or single precision type, memory layout of the starting point; type of labels, strengths, steps and "
        "limits; storage of the data matrix and of the operator; way of providing the gradient; extra arguments; non-trivial: at least one iteration that moves; distinct by digest of the result and the form")
ASSUMPTIONS = ["values are exactly representable in the type they are given in", "forms that change the order of the arithmetic are compared to within rounding, with step rules that do not branch on rounding errors"]
REQUIRED = ["displacements", "x0 list", "x0 tuple", "x0 int", "x0 float32", "x0 strided", "x0 readonly", "x0 reversed", "labels int", "labels bool", "labels float32", "strength int", "strength numpy", "numpy limits", "data storage", "data int64", "data int8", "data float32", "operator form",
            "jac callable", "jac 2-point", "jac False", "jac strings rejected", "args", "args_prox", "identity data", "gradient error bounds", "oracles away from ties"] + ["x0 " + s for s in runs.SOLVERS]


def forms(rng, v):
    """Equivalent forms of a vector of small integers or halves."""
    ints = np.all(v == np.round(v))
    names = ["list", "tuple", "float32", "strided", "readonly", "reversed"] + (["int", "int", "int32", "intlist"] if ints else [])
    k = names[rng.randint(len(names))]
    if k == "list":
        return k, [float(t) for t in v]
    if k == "intlist":
        return "int", [int(t) for t in v]
    if k == "tuple":
        return k, tuple(float(t) for t in v)
    if k == "float32":
        return k, v.astype(np.float32)
    if k == "int":
        return k, v.astype(int)
    if k == "int32":
        return "int", v.astype(np.int32)
    return k, gen.layout(rng, v, k)[0]


def wl_x0(ctx, rng):
    R = runs.Run(rng, simple=True)
    if R.name in ("fw", "sfw") and R.set == "simplex":
        R.x0 = np.zeros(R.p)
        R.x0[rng.randint(R.p)] = R.radius
    elif R.name == "fwp":
        pass
    elif rng.rand() < 0.6:
        R.x0 = rng.randint(-2, 3, size=R.p).astype(float)
        if R.name in ("fw", "sfw"):
            R.x0 = np.zeros(R.p)
            if R.radius >= 1:
                R.x0[rng.randint(R.p)] = [1.0, -1.0][rng.randint(2)]
    else:
        R.x0 = np.round(rng.randn(R.p) * 4) / 8
        if R.name in ("fw", "sfw"):
            R.x0 = R.x0 * 0
            R.x0[rng.randint(R.p)] = 0.5
    k, f = forms(rng, R.x0)
    ctx.count("x0 " + k)
    ctx.count("x0 " + R.name)
    a = R.call(wrap=margins(R))
    b = R.call(x0=f)
    ctx.check(isinstance(b.x, np.ndarray) and b.x.dtype == float and b.x.shape == (R.p,), "the solution is not an array of floats for x0 given as %s" % k, got=repr(b.x)[:200], **R.info)
    if k in ("strided", "reversed"):
        # the sums of a vector that is not contiguous may be taken in another order
        close(ctx, R, a, b, "x0 given as %s" % k, exact=False)
    else:
        d = runs.same(a, b)
        ctx.check(d is None, "x0 given as %s: the result is different (%s)" % (k, d), expected=a.x, got=b.x, x0=R.x0, **R.info)
    if not np.array_equal(a.x, R.x0):
        ctx.key("x0", k, digest(a.x))
    ctx.sample(form=k, **R.info)


def wl_types(ctx, rng):
    """Types of labels, strengths, radii, steps and limits."""
    R = runs.Run(rng, simple=True)
    k = ["labels int", "labels bool", "labels float32", "numpy limits", "strength int", "strength numpy"][rng.randint(6)]
    if k.startswith("labels"):
        R.b = rng.randint(2, size=R.n).astype(float)
        a = R.call(wrap=margins(R))
        R.b = R.b.astype({"labels int": int, "labels bool": bool, "labels float32": np.float32}[k])
        if k == "labels bool" and R.kind != "log":
            R.b = R.b.astype(np.int8)
        b = R.call()
        # single precision labels may carry through: tolerance of the labels' own rounding only where they are exact
        close(ctx, R, a, b, k, exact=False)
    elif k == "numpy limits":
        a = R.call(wrap=margins(R))
        over = dict(max_iter=np.int64(R.max_iter), tol=np.float64(R.tol))
        for q in ("step_size", "alpha", "lipschitz", "step_size2"):
            if isinstance(R.conf.get(q), float):
                over[q] = np.float64(R.conf[q])
        if "batch_size" in R.conf:
            over["batch_size"] = np.int64(R.conf["batch_size"])
        b = R.call(**over)
        close(ctx, R, a, b, k, exact=True)
    else:
        s, r = [1.0, 2.0][rng.randint(2)], [1.0, 2.0][rng.randint(2)]
        R.strength = s
        if hasattr(R, "set"):
            R.radius = r
            if R.name == "fwp":
                R.x0 = np.sign(R.x0) * r
            elif R.set == "simplex":
                R.x0 = np.zeros(R.p)
                R.x0[0] = r
        R.ridge = 1.0
        a = R.call(wrap=margins(R))
        t = int if k == "strength int" else [np.float64, np.float32, np.int64][rng.randint(3)]
        R.strength, R.ridge = t(s), t(1)
        if hasattr(R, "set"):
            R.radius = t(r)
        b = R.call()
        # a single precision strength makes the products with it single precision
        close(ctx, R, a, b, k, exact=False, tol=1e-5 if t is np.float32 else 1e-9)
    ctx.count(k)
    ctx.key("types", k, digest(a.x))


def margins(R):
    """Observes how far the linear oracles were from a tie."""
    R.margin = np.inf

    def wrap(name, fn):
        if name != "lmo":
            return fn

        def lmo(u, *a):
            v = np.sort(np.abs(u) if R.set != "simplex" else u)[::-1]
            top = np.abs(v).max()
            gap = (v[0] - v[1]) if v.size > 1 else np.inf
            if R.name == "fwp" and v.size > 1:
                gap = min(gap, np.diff(np.sort(np.concatenate([u, -u]))).min())
            R.margin = min(R.margin, min(gap, v[0]) / (top or 1.0) if top else 0.0)
            return fn(u, *a)
        return lmo
    return wrap


def close(ctx, R, a, b, k, exact, tol=1e-9):
    if exact:
        d = runs.same(a, b)
        ctx.check(d is None, "%s: the result is different (%s)" % (k, d), expected=a.x, got=b.x, **R.info)
        return
    ctx.check(b.x.dtype == float and b.x.shape == a.x.shape, "%s: the solution is not an array of floats" % k, **R.info)
    if getattr(R, "jac", None) == "2-point" or branching(R):
        ctx.check(np.all(np.isfinite(b.x)), "%s: the result is not finite" % k, got=b.x, **R.info)
        if runs.same(a, b) is None:
            ctx.count("identical")
        elif R.name in ("fw", "fwp", "sfw"):
            # only a tie of the oracle (or a change of the branch of a line search) can take another path
            if R.margin > 1e-6 and R.conf.get("step", "") not in ("backtracking",) and getattr(R, "jac", None) != "2-point" and tol <= 1e-9:
                ctx.count("oracles away from ties")
                s = np.abs(a.x).max() + 1e-3
                ctx.check(np.all(np.abs(a.x - b.x) <= 1e-6 * s), "%s: the result is different" % k, expected=a.x, got=b.x, margin=R.margin, **R.info)
        else:
            # allow for another branch of a line search, by the objective
            o = R.objects()
            fa, fb = float(o.loss(a.x)), float(o.loss(b.x))
            ctx.check(np.allclose(a.x, b.x, rtol=1e-2, atol=1e-2) or abs(fa - fb) <= 1e-2 * (abs(fa) + 1), "%s: the result is different" % k, expected=a.x, got=b.x, **R.info)
        return
    s = np.abs(a.x).max() + 1e-3
    ctx.check(np.all(np.abs(a.x - b.x) <= tol * s * (R.max_iter + 5)), "%s: the result is different" % k, expected=a.x, got=b.x, **R.info)


def branching(R):
    """Does the run take decisions that a rounding error could flip?"""
    if R.name in ("fw", "fwp", "sfw"):
        return True
    if R.name in ("pg", "apg"):
        return R.conf["step"] != "user"
    if R.name == "tos":
        return R.conf.get("line_search", True)
    if R.name == "pd":
        return R.conf["line_search"]
    return False


def wl_storage(ctx, rng):
    """Storage of the data."""
    R = runs.Run(rng, simple=True, formats=["C"])
    R.tol = 0.0
    dt = None
    if rng.rand() < 0.35:
        # data that another type represents exactly
        dt = [np.int64, np.int8, np.int32, np.float32][rng.randint(4)]
        D = np.trunc(np.array(R.D) * (2 if dt is not np.float32 else 1))
        if not np.any(D, axis=0).all() or not np.any(D, axis=1).all():
            D[D == 0] = 1.0
        D = np.clip(D, -3, 3)
        R.D = D
        R.A = D.copy()
        f = R.L * 4 * max(1.0, np.linalg.norm(D, 2) ** 2 / R.n)
        R.L = f
        for q in ("step_size", "step_size2"):
            if isinstance(R.conf.get(q), float):
                R.conf[q] = R.conf[q] / 10
        R.conf.pop("lipschitz", None)
        if R.conf.get("step") == "DR" or R.conf.get("step_size") == "DR":
            R.conf["lipschitz"] = f
    a = R.call(wrap=margins(R))
    fmts = ["F", "stridedcols", "transposed", "readonly", "csr", "csc", "coo", "lil", "dok", "dia", "bsr", "csr_unsorted", "csr_explicit0", "csr_dup", "csr64", "coo_dup", "csr_readonly"]
    if R.name in ("saga", "svrg", "vrtos"):
        # a stored zero is part of the support of a sample, which these methods update: another (valid) path
        fmts = [f for f in fmts if f not in ("csr_explicit0", "bsr", "dia")]
    if dt is not None:
        fmts = [f for f in fmts if "dup" not in f]  # parts of entries are not integers
    R.A, f, D = gen.as_format(rng, np.array(R.D), fmts[rng.randint(len(fmts))])
    if rng.rand() < 0.2 and sparse.issparse(R.A) and f in ("csr", "csc", "coo", "lil"):
        R.A = getattr(sparse, f + "_array")(R.A)  # the array flavour of scipy
        f += "_array"
    if dt is not None:
        R.A = R.A.astype(dt)
        f += " " + dt.__name__
        ctx.count("data " + dt.__name__)
    b = R.call()
    R.info["data"] = f
    close(ctx, R, a, b, "data stored as %s" % f, exact=False)
    ctx.count("data storage")
    ctx.key("storage", f, digest(a.x))


def wl_operator(ctx, rng):
    """Form of the linear operator of the primal-dual method."""
    R = runs.Run(rng, name="pd", simple=True)
    R.tol = 0.0
    if rng.rand() < 0.7:
        R.conf.update(line_search=False, step_size=0.5 / (R.L + 2))
    if R.Lmat is None or rng.rand() < 0.3:
        R.Lmat = None
        M = np.eye(R.p)
    else:
        M = R.Lmat.toarray() if sparse.issparse(R.Lmat) else np.array(R.Lmat)
    a = R.call(wrap=margins(R))
    forms = dict(C=lambda: np.array(M), F=lambda: np.asfortranarray(M), csr=lambda: sparse.csr_matrix(M), csc=lambda: sparse.csc_matrix(M), coo=lambda: sparse.coo_matrix(M), lil=lambda: sparse.lil_matrix(M),
                 matrix=lambda: np.asmatrix(M), op=lambda: sparse.linalg.aslinearoperator(M), duck=lambda: Duck(M), csr_array=lambda: sparse.csr_array(M),
                 user=lambda: sparse.linalg.LinearOperator(M.shape, matvec=lambda v: M.dot(v), rmatvec=lambda v: M.T.dot(v), dtype=float))
    k = sorted(forms)[rng.randint(len(forms))]
    R.Lmat = forms[k]()
    b = R.call()
    close(ctx, R, a, b, "operator given as %s" % k, exact=False)
    ctx.count("operator form")
    ctx.key("operator", k, digest(a.x))


def wl_jac(ctx, rng):
    """Ways of providing the gradient, and extra arguments."""
    n = 1 + rng.randint(6)
    S = prob.Smooth(rng, n, scale=1.0)
    c = rng.randn(n)
    args = [(), (c,), (c, 2.5)][rng.randint(3)]
    seen = []
    if args:
        ctx.count("args")

    def term(x, *a):
        """linear term given by the extra arguments"""
        seen.append(len(a) == len(args) and all(u is v for u, v in zip(a, args)))
        return (a[0] * (a[1] if len(a) > 1 else 1.0)) if a else np.zeros(n)

    where = []

    def fun(x, *a):
        where.append(np.array(x))
        return S.f(x) + float(term(x, *a).dot(x))
    grad = lambda x, *a: S.grad(x) + term(x, *a)
    both = lambda x, *a: (fun(x, *a), grad(x, *a))
    which = ["fw", "pg", "apg"][rng.randint(3)]
    x0 = 0.3 * rng.randn(n)
    grads, pts = [], []
    rad = 1.0
    ball = cc.L1Ball(rad)

    def lmo(u, x, act=None):
        grads.append(-u)
        pts.append(x.copy())
        # smooth oracle: no ties (euclidean ball)
        nu = np.linalg.norm(u)
        return (u / nu if nu > 0 else u) * rad - x, None, None, 1.0

    def prox(v, s):
        return v / (1 + 0.1 * s)

    eps = [1e-8, 1e-6, 1e-4, 1e-2][rng.randint(4)]

    def run(f, jac, **kw):
        grads.clear()
        pts.clear()
        if which == "fw":
            r = cp.minimize_frank_wolfe(f, np.zeros(n), lmo, jac=jac, step="sublinear", max_iter=6, tol=0, lipschitz=S.L, args=args, **kw)
        else:
            shown = []

            def step(dl):
                grads.append(np.array(dl["grad_fk"]) if "grad_fk" in dl else None)
                return 0.5 / S.L
            r = cp.minimize_proximal_gradient(f, x0, prox=prox, jac=jac, step=step, max_iter=6, tol=0, args=args, accelerated=which == "apg", **kw)
        return r, list(grads), list(pts)

    info = dict(solver=which, problem=S.name, nargs=len(args), eps=eps)
    a, ga, pa = run(both, True)
    ctx.check(all(seen), "the objective is not called with the extra arguments", **info)
    seen.clear()
    b, gb, pb = run(fun, grad)
    ctx.check(all(seen), "the objective or its gradient is not called with the extra arguments", **info)
    ctx.check(np.array_equal(a.x, b.x), "jac given as a callable: the result is different", expected=a.x, got=b.x, **info)
    ctx.count("jac callable")
    mode = ["2-point", False][rng.randint(2)]
    seen.clear()
    del where[:]
    d, gd, pd = run(fun, mode, eps=eps)
    first = np.zeros(n) if which == "fw" else x0
    near = [w - first for w in where[: n + 3]]
    for i in range(n):
        e = np.zeros(n)
        e[i] = eps
        ctx.check(any(np.all(np.abs(w - e) <= 1e-6 * eps + 4e-16 * (1 + np.abs(first))) for w in near), "the finite differences do not use the displacement eps", coordinate=i, displacements=near, **info)
    ctx.count("displacements")
    ctx.check(all(seen), "the finite differences do not pass the extra arguments", **info)
    ctx.count("jac False" if mode is False else "jac 2-point")
    # error of a forward difference: curvature plus rounding
    fs = max(abs(fun(np.zeros(n), *args)), abs(fun(d.x, *args)), 1.0) + S.L
    ge = 2 * S.L * eps + 8e-16 * 8 * fs / eps
    if which == "fw":
        for g, x in zip(gd, pd):
            ctx.check(np.all(np.abs(g - grad(x, *args)) <= ge), "the estimated gradient is outside of its error bound", got=g, expected=grad(x, *args), bound=ge, x=x, **info)
        ctx.count("gradient error bounds")
    # the method is a contraction up to its gradient errors
    if which == "pg":
        ctx.check(np.all(np.abs(a.x - d.x) <= 50 * ge / S.L * np.sqrt(n) + 1e-9), "estimated gradients: the result is different", expected=a.x, got=d.x, bound=ge, **info)
    ctx.check(np.all(np.isfinite(d.x)), "estimated gradients: the result is not finite", got=d.x, **info)
    # the objective may already return the gradient (documented for jac=True); strings other than 2-point are rejected
    bad = ["3-point", "cs", "2point", ""][rng.randint(3)]
    try:
        run(fun, bad)
    except NotImplementedError:
        ctx.count("jac strings rejected")
    else:
        ctx.fail("an unknown value of jac is accepted", jac=bad, **info)
    ctx.key("jac", which, digest(a.x), mode)


def wl_args_prox(ctx, rng):
    n = 1 + rng.randint(6)
    S = prob.Smooth(rng, n, scale=1.0)
    c = rng.rand()
    P, Q = cpn.L1Norm(c), cpn.L1Norm(0.3)
    p1 = lambda v, s, w=None: (seen.append(w), np.sign(v) * np.maximum(np.abs(v) - s * c * w, 0))[1]
    p2 = lambda v, s, w=None: (seen.append(w), np.sign(v) * np.maximum(np.abs(v) - s * 0.3 * w, 0))[1]
    w = 0.5 + rng.rand(n)
    seen = []
    fg = lambda x, return_gradient=True: S.f_grad(x) if return_gradient else S.f(x)
    ls = bool(rng.randint(2))
    kw = dict(max_iter=20, tol=0, step_size=0.5 / S.L, line_search=ls)
    x0 = rng.randn(n)
    a = cp.minimize_three_split(fg, x0, prox_1=p1, prox_2=p2, args_prox=(w,), **kw)
    ctx.check(len(seen) > 0 and all(v is w for v in seen), "the proximal operators are not called with args_prox", calls=len(seen))
    seen.clear()
    b = cp.minimize_three_split(fg, x0, prox_1=lambda v, s: p1(v, s, w), prox_2=lambda v, s: p2(v, s, w), **kw)
    ctx.check(np.array_equal(a.x, b.x), "args_prox: the result is different", expected=b.x, got=a.x)
    ctx.count("args_prox")
    ctx.key("args_prox", digest(a.x))


def wl_identity(ctx, rng):
    """Losses without data matrix are the losses of the identity; the loss with labels in any container shape."""
    n = 1 + rng.randint(10)
    kind = ["log", "square"][rng.randint(2)]
    b = rng.rand(n) if kind == "log" else rng.randn(n)
    al = [0.0, 0.3][rng.randint(2)]
    C = cl.LogLoss if kind == "log" else cl.SquareLoss
    u, v = C(None, b, al), C(np.eye(n), b, al)
    for _ in range(3):
        x = gen.vec(rng, n)[0]
        x = x / max(1, np.abs(x).max() / 30)
        fu, gu = u.f_grad(x)
        fv, gv = v.f_grad(x)
        ctx.check(abs(fu - fv) <= 1e-13 * (abs(fv) + 1) and np.all(np.abs(gu - gv) <= 1e-13 * (np.abs(gv).max() + 1)), "a loss without data matrix is not that of the identity", loss=kind, x=x, got=(fu, gu), expected=(fv, gv))
        ctx.check(np.asarray(gu).shape == (n,), "the gradient of a loss without data matrix does not have the shape of x", loss=kind)
    if n > 1:
        ctx.check(abs(u.lipschitz - v.lipschitz) <= 1e-8 * v.lipschitz and abs(u.max_lipschitz - v.max_lipschitz) <= 1e-12 * v.max_lipschitz, "Lipschitz constants of a loss without data matrix are not those of the identity",
                  got=(u.lipschitz, u.max_lipschitz), expected=(v.lipschitz, v.max_lipschitz), loss=kind)
    ctx.count("identity data")
    ctx.key("identity", kind, digest(b))


WORKLOADS = [("starting points", wl_x0, 1500, 30000), ("types", wl_types, 1200, 20000), ("storage", wl_storage, 1200, 20000), ("operator", wl_operator, 400, 6000), ("jac", wl_jac, 800, 15000),
             ("args_prox", wl_args_prox, 100, 1500), ("identity", wl_identity, 300, 5000)]
