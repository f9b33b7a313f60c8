"""C01: loss values, gradients and sample derivatives."""
import numpy as np
from scipy import sparse
import copt.loss
from vlib import gen, ref
from vlib.core import digest, Skip

ID = "C01"
RULE = ("random (loss, storage of A, b, alpha, delta, x, intercept, memory layout) cases; non-trivial: A and x "
        "nonzero; distinct by the digest of A, b, x and the options")
ASSUMPTIONS = ["numpy long double arithmetic of the reference; rounding-error bounds with a factor 8 margin"]
SLACK = 8.0
KINDS = {"log": copt.loss.LogLoss, "square": copt.loss.SquareLoss, "huber": copt.loss.HuberLoss}
REQUIRED = ["loss values compared", "gradients compared", "sample derivatives compared",
            "values with an intercept", "margins beyond 37", "margins below -33", "huber residuals beyond delta", "large", "options changed", "labels changed in place", "data changed in place"]


def make_b(rng, kind, n, z):
    if kind == "log":
        c = rng.randint(5)
        if c == 0:
            return (rng.rand(n) < 0.5).astype(float)
        if c == 1:
            return rng.rand(n)
        if c == 2:
            return np.ones(n)
        if c == 3:
            return np.zeros(n)
        return (rng.rand(n) < 0.5).astype(int)
    c = rng.randint(5)
    if c == 0:
        return np.array(np.round(z, 1), dtype=float)
    if c == 1:
        return rng.randint(-3, 4, size=n)
    if c == 2:
        return np.zeros(n)
    if c == 3:
        return rng.randn(n) * 10.0 ** rng.randint(-3, 4)
    return rng.randn(n)


def build(rng, kind, ctx=None, allow=None):
    n, p = gen.size(rng, 0.06), gen.size(rng, 0.06)
    if gen.FORCED:
        # many samples or many features
        n, p = (n, 1 + rng.randint(4)) if rng.rand() < 0.6 else (1 + rng.randint(4), p)
    while n * p > 60000 and not gen.FORCED:
        n, p = gen.size(rng, 0.06), gen.size(rng, 0.06)
    A0, akind = gen.dense_matrix(rng, n, p)
    ident = kind != "huber" and rng.rand() < 0.05 and not gen.FORCED
    if ident:
        p = n
        A, fmt, D = None, "None", np.eye(n)
    else:
        A, fmt, D = gen.as_format(rng, A0, allow=allow)
    x, xk = gen.vec(rng, p)
    z = D.dot(x)
    zs = np.abs(z).max()
    c = rng.randint(4)
    if zs > 0 and c:
        # choose the scale of the margins
        x = x * ([1e-3, 1.0, 10.0, 40.0, 120.0, 1000.0][rng.randint(6)] / zs)
        xk += "|scaled"
        z = D.dot(x)
    allint = A is not None and rng.rand() < 0.06
    if allint:
        A, fmt, D = gen.as_format(rng, np.round(A0 * 3), rng.choice(["int", "int", "csr", "coo"]))
        if fmt != "int":
            A = A.astype(int)
    xi = allint or rng.rand() < 0.1
    if xi and np.abs(x).max() < 1e6:
        x = np.round(x)
        z = D.dot(x)
    b = make_b(rng, kind, n, z)
    if allint:
        z = D.dot(x)
        b = rng.randint(0, 2, size=n) if kind == "log" else rng.randint(-5, 6, size=n)
    alpha = [0.0, 0, 1.0, 0.5 / n, 1e-3, 12.5, float(10.0 ** rng.uniform(-20, 20))][rng.randint(7)]
    delta = [1, 1.0, 0.25, 3.0, 10 ** rng.uniform(-3, 2), float(10.0 ** rng.uniform(-12, 12))][rng.randint(6)]
    intercept = kind == "log" and rng.rand() < 0.4
    if intercept:
        x = np.append(x, rng.randn() * [0, 1, 30][rng.randint(3)])
    xl, lay = gen.layout(rng, x)
    if xi and (allint or lay == "plain") and np.all(x == np.round(x)) and np.abs(x).max() < 1e9 and (
            allint or rng.rand() < 0.5):
        xl = x.astype(int)
        lay = "int"
    return dict(A=A, fmt=fmt, D=D, x=xl, b=b, alpha=alpha, delta=delta, intercept=intercept,
                lay=lay, xk=xk, akind=akind, n=n, p=p)


def unit(c):
    f32 = c["x"].dtype == np.float32 or (c["A"] is not None and c["A"].dtype == np.float32)
    return ref.EPS32 if f32 else ref.EPS


def instance(kind, c):
    if kind == "huber":
        L = copt.loss.HuberLoss(c["A"], c["b"], alpha=c["alpha"], delta=c["delta"])
    else:
        L = KINDS[kind](c["A"], c["b"], alpha=c["alpha"])
    if kind == "log":
        L.intercept = c["intercept"]
    return L


def wl_value(ctx, rng, kind=None):
    kind = kind or ["log", "square", "huber"][rng.randint(3)]
    c = build(rng, kind)
    L = instance(kind, c)
    x = c["x"]
    u = unit(c)
    R = ref.loss_ref(kind, c["D"], c["b"].astype(float), x.astype(float), c["alpha"], c["delta"],
                     c["intercept"], u)
    if u == ref.EPS32 and np.abs(R["z"]).max() > 80 and kind == "log":
        pass
    if kind == "log" and float(np.abs(R["dr"]).max()) > 1:
        raise Skip  # margins not resolved at this precision
    if kind == "huber":
        # a residual that rounding cannot place on one side of delta: both branches agree to O(dz^2)
        ctx.count("huber residuals beyond delta", int((np.abs(R["z"] - c["b"]) > c["delta"]).sum()))
    tiny = (1e-37 if u == ref.EPS32 else 1e-300) * (1 + float(np.abs(c["D"]).max()))
    changed = gen.freeze(c["A"], c["b"], x)
    info = dict(loss=kind, fmt=c["fmt"], x_layout=c["lay"], n=c["n"], p=c["p"], alpha=c["alpha"],
                delta=c["delta"], intercept=c["intercept"], b=c["b"], x=x)
    order = rng.permutation(3)
    outs = {}
    for o in order:
        if o == 0:
            outs["call"] = L(x)
        elif o == 1:
            outs["pair"] = L.f_grad(x)
        else:
            outs["nograd"] = L.f_grad(x, return_gradient=False)
    ctx.check(isinstance(outs["pair"], tuple) and len(outs["pair"]) == 2,
              "f_grad(x) must return the pair (value, gradient)", got=type(outs["pair"]), **info)
    val, g = outs["pair"]
    for nm, v in (("loss(x)", outs["call"]), ("f_grad(x)[0]", val),
                  ("f_grad(x, return_gradient=False)", outs["nograd"])):
        ctx.check(np.ndim(v) == 0 and np.isrealobj(v), "%s must be a scalar" % nm, got=v, **info)
        err = abs(ref.LD(v) - R["val"])
        ctx.check(err <= SLACK * R["dval"] + tiny,
                  "%s of the %s loss is wrong" % (nm, kind), got=v, expected=float(R["val"]),
                  error=float(err), bound=float(SLACK * R["dval"]), **info)
        ctx.count("loss values compared")
    g = np.asarray(g)
    ctx.check(g.shape == x.shape, "the gradient does not have the shape of x", got=g.shape, **info)
    err = np.abs(ref._ld(g) - R["grad"])
    bad = ~(err <= SLACK * R["dgrad"] + tiny)
    ctx.check(not bad.any(), "gradient of the %s loss is wrong" % kind,
              coordinate=int(np.argmax(bad)), got=g, expected=R["grad"].astype(float),
              error=float(np.nanmax(err)), **info)
    ctx.count("gradients compared")
    ctx.check(changed() is None, "evaluating the loss modified its inputs", mech="mutation",
              what=changed(), **info)
    if c["intercept"]:
        ctx.count("values with an intercept")
    zz = R["z"].astype(float)
    ctx.count("margins beyond 37", int((zz >= 37).sum()))
    ctx.count("margins below -33", int((zz < -33).sum()))
    ctx.count("storage " + c["fmt"])
    if np.any(x):
        ctx.key(kind, c["fmt"], digest(c["D"], c["b"], x), c["alpha"], c["delta"], c["intercept"])
    ctx.sample(**info)
    # evaluation must not depend on what the object evaluated before
    if rng.rand() < 0.3:
        x2 = np.array(x, dtype=float) * rng.randn() + rng.randn(x.size)
        L.f_grad(x2)
        again = L.f_grad(x)
        ctx.check(again[0] == val and np.array_equal(again[1], g),
                  "evaluating elsewhere changes the value of the loss", **info)


def wl_deriv(ctx, rng):
    """partial_deriv(p, y): derivative of the loss of single samples."""
    kind = ["log", "square"][rng.randint(2)]
    m = gen.size(rng, 0.1)
    p, _ = gen.vec(rng, m)
    if rng.rand() < 0.5:
        p = p * [10.0, 100.0, 800.0][rng.randint(3)]
    b = make_b(rng, kind, m, p).astype(float)
    L = KINDS[kind](np.eye(m), b)
    fd = L.partial_deriv
    got = np.asarray(fd(p, b))
    R = ref.loss_ref(kind, np.eye(m), b, p, 0.0)
    z = R["z"]
    if kind == "log":
        s, sm = ref.sigma(p), ref.sigma(-ref._ld(p))
        bound = 16 * ref.EPS * (np.abs(1 - b) * s + np.abs(b) * sm)
    else:
        bound = 4 * ref.EPS * (np.abs(p) + np.abs(b))
    err = np.abs(ref._ld(got) - R["r"])
    ctx.check(got.shape == p.shape and np.all(err <= bound + 1e-300), "partial_deriv of the %s loss is wrong" % kind,
              p=p, y=b, got=got, expected=R["r"].astype(float))
    # one at a time, as the stochastic solvers use it
    k = rng.randint(m)
    one = fd(np.array([p[k]]), np.array([b[k]]))
    ctx.check(abs(one[0] - got[k]) <= 4 * ref.EPS * abs(got[k]) + 1e-300, "partial_deriv depends on the batch", p=p[k], y=b[k],
              got=one, expected=got[k])
    ctx.count("sample derivatives compared", m)
    ctx.key(kind, digest(p, b))


def wl_consistent(ctx, rng):
    """A^T partial_deriv(A x, b) / n + alpha x is the gradient that f_grad reports."""
    kind = ["log", "square"][rng.randint(2)]
    c = build(rng, kind)
    if c["A"] is None or c["lay"] in ("float32", "int") or c["fmt"] in ("float32",):
        raise Skip
    c["intercept"] = False
    x = np.array(c["x"][: c["p"]], dtype=float)
    L = instance(kind, c)
    z = c["D"].dot(x)
    r = L.partial_deriv(z, c["b"].astype(float))
    g = c["D"].T.dot(r) / c["n"] + c["alpha"] * x
    R = ref.loss_ref(kind, c["D"], c["b"].astype(float), x, c["alpha"])
    if kind == "log" and float(np.abs(R["dr"]).max()) > 1:
        raise Skip
    err = np.abs(L.f_grad(x)[1] - g)
    ctx.check(np.all(err <= 2 * SLACK * R["dgrad"].astype(float) + 1e-300),
              "f_grad and partial_deriv disagree", loss=kind, fmt=c["fmt"], x=x, b=c["b"])
    ctx.key("consistent", kind, digest(c["D"], x))


def wl_attributes(ctx, rng):
    """The penalty, delta, intercept and the contents of A and b may be changed on an existing loss."""
    kind = ["log", "square", "huber"][rng.randint(3)]
    c = build(rng, kind)
    c["intercept"] = False
    c["x"] = c["x"][: c["p"]]
    L = instance(kind, c)
    x = np.array(c["x"], dtype=float)
    L.f_grad(x), L(x)
    if kind != "huber":
        L.partial_deriv
    if rng.rand() < 0.7:
        c["alpha"] = L.alpha = float(rng.rand())
    if kind == "huber" and rng.rand() < 0.7:
        c["delta"] = L.delta = float(10 ** rng.uniform(-2, 1))
    if kind == "log" and rng.rand() < 0.5:
        c["intercept"] = L.intercept = True
        x = np.append(x, rng.randn())
    if rng.rand() < 0.4:
        new = make_b(rng, kind, c["n"], c["b"].astype(float))
        if c["b"].dtype.kind == "f":
            c["b"][:] = new
            ctx.count("labels changed in place")
    if rng.rand() < 0.5:
        if isinstance(c["A"], np.ndarray) and c["A"].flags.writeable and c["A"].dtype.kind == "f":
            c["A"] *= 0.5
            c["A"][0] = 1.0
            ctx.count("data changed in place")
        elif sparse.issparse(c["A"]) and c["A"].format in ("csr", "csc", "coo") and c["A"].data.size and c["A"].data.flags.writeable and c["A"].dtype.kind == "f":
            c["A"].data *= 0.5
            c["A"].data[0] = 1.0
            ctx.count("data changed in place")
    fresh = instance(kind, c)
    info = dict(loss=kind, fmt=c["fmt"], alpha=c["alpha"], delta=c["delta"], intercept=c["intercept"], b=c["b"], x=x)
    got, want = L.f_grad(x), fresh.f_grad(x)
    ctx.check(got[0] == want[0] and np.array_equal(got[1], want[1]), "a loss whose options or data changed is not the loss built with them", got=got, expected=want, **info)
    ctx.check(L(x) == fresh(x) and L.f_grad(x, return_gradient=False) == fresh.f_grad(x, return_gradient=False), "a loss whose options or data changed is not the loss built with them", **info)
    ctx.count("options changed")
    ctx.key("attr", kind, digest(x), c["alpha"])


WORKLOADS = [
    ("large", gen.large(wl_value), 60, 600), ("attributes", wl_attributes, 400, 4000),
    ("log", lambda ctx, rng: wl_value(ctx, rng, "log"), 8000, 40000),
    ("square", lambda ctx, rng: wl_value(ctx, rng, "square"), 5000, 25000),
    ("huber", lambda ctx, rng: wl_value(ctx, rng, "huber"), 6000, 30000),
    ("partial_deriv", wl_deriv, 3000, 12000),
    ("consistency", wl_consistent, 2000, 8000),
]
