"""C25: values of penalties and constraints."""
import numpy as np
import copt.constraint as cc
import copt.penalty as cpn
from copt import tv_prox
from scipy import sparse
from vlib import gen
from vlib.core import digest, Skip
from checks import c04

ID = "C25"
RULE = ("random (penalty or constraint, strength, point, type and memory layout) with the value compared with the definition, the norm axioms and the proximal operator; matrices of the total variation of "
        "every small shape; non-trivial: a value that is neither zero nor infinite, or a point on either side of the boundary; distinct by digest of the point and the value")
ASSUMPTIONS = ["reference values in long double", "points within rounding of the boundary of a ball may be on either side"]
REQUIRED = ["values of " + k for k in ("l1", "group", "fused", "trace", "tv2d")] + ["inside", "outside", "operators", "integer points", "unsigned points", "descent of the prox", "homogeneity", "triangle inequality", "zero on constants", "groups rejected", "large", "projections inside"]
LD = np.longdouble


def point(rng, n):
    """(point, exact values in long double, kind)"""
    x, kind = gen.vec(rng, n)
    if np.abs(x).max() > 1e150:
        x = x / 1e200
    c = rng.randint(6)
    if c == 0:
        dt = [np.int64, np.int32, np.int16, np.int8][rng.randint(4)]
        lim = 1000 if dt != np.int8 else 127
        x = np.round(np.clip(x, -lim, lim)).astype(dt)
        if dt != np.int64 and rng.rand() < 0.3:
            x[rng.randint(n)] = np.iinfo(dt).min  # has no opposite in its type
        return x, x.astype(LD), "integer points"
    if c == 1:
        x = rng.randint(0, 256, size=n).astype([np.uint8, np.uint16, np.uint32][rng.randint(3)])
        return x, x.astype(LD), "unsigned points"
    x, lay = gen.layout(rng, x)
    return x, x.astype(LD), lay


def definition(kind, X, par):
    """Value of the norm (without strength) and a bound on its rounding error in units of eps."""
    if kind == "l1":
        return np.abs(X).sum()
    if kind == "group":
        return sum(np.sqrt((X[g] ** 2).sum()) for g in par)
    if kind == "fused":
        return np.abs(np.diff(X)).sum()
    if kind == "trace":
        return LD(np.linalg.svd(X.astype(float).reshape(par), compute_uv=False).sum())
    M = X.reshape(par)
    return np.abs(np.diff(M, axis=0)).sum() + np.abs(np.diff(M, axis=1)).sum()


def wl_penalty(ctx, rng):
    kind = ["l1", "group", "fused", "trace", "tv2d"][rng.randint(5)]
    n = gen.size(rng, 0.03)
    alpha = [0.0, 1.0, 3, 0.1, 1e-8, 1e6, float(10.0 ** rng.uniform(-30, 30))][rng.randint(7)]
    par = None
    if kind in ("trace", "tv2d"):
        d = [k for k in range(1, n + 1) if n % k == 0]
        r = d[rng.randint(len(d))]
        par = (r, n // r)
        pen = (cpn.TraceNorm if kind == "trace" else cpn.TotalVariation2D)(alpha, par if rng.rand() < 0.5 else list(par))
    elif kind == "group":
        par = c04.make_groups(rng, n)
        par = par[0] if isinstance(par, tuple) else par
        pen = cpn.GroupL1(alpha, par)
    else:
        pen = (cpn.L1Norm if kind == "l1" else cpn.FusedLasso)(alpha)
    x, X, lay = point(rng, n)
    info = dict(penalty=kind, alpha=alpha, n=n, shape=par if kind != "group" else len(par), x=x, layout=lay)
    if lay.endswith("points"):
        ctx.count(lay)
    changed = gen.freeze(x)
    v = pen(x)
    ctx.check(changed() is None, "evaluating a penalty modified the point", **info)
    ctx.check(np.ndim(v) == 0 and np.isfinite(v) and v >= 0, "the value of a penalty is not a nonnegative number", got=v, **info)
    ref = alpha * definition(kind, X, par)
    # scipy decomposes matrices of small integers in single precision
    eps = 2.5e-7 if x.dtype == np.float32 or (kind == "trace" and x.dtype.itemsize < 4) else 2.3e-16
    mag = np.sqrt((X ** 2).sum()) * np.sqrt(n) if kind == "trace" else np.abs(X).sum()
    tol = alpha * eps * (4 * n + 16) * float(mag) + 1e-300
    ctx.check(abs(LD(v) - ref) <= tol, "the value of a penalty is not that of its definition", got=v, expected=float(ref), tol=tol, **info)
    ctx.count("values of " + kind)
    if v > 0:
        ctx.key(kind, digest(np.asarray(x)), float(v), alpha)
    ctx.sample(**info)
    if x.dtype != np.float64:
        return
    # a seminorm
    t = [0.0, 2.0, -0.5, -1.0][rng.randint(4)]
    ctx.check(abs(pen(t * x) - abs(t) * v) <= 4 * tol * (1 + abs(t)), "a penalty is not homogeneous", got=pen(t * x), expected=abs(t) * v, factor=t, **info)
    ctx.count("homogeneity")
    y = gen.vec(rng, n)[0]
    if np.abs(y).max() < 1e150:
        toly = alpha * eps * (4 * n + 16) * float(np.linalg.norm(y) * np.sqrt(n))
        ctx.check(pen(x + y) <= v + pen(y) + 4 * (tol + toly), "a penalty does not satisfy the triangle inequality", got=pen(x + y), expected=v + pen(y), y=y, **info)
        ctx.count("triangle inequality")
    if kind in ("fused", "tv2d"):
        c = float(rng.randn())
        ctx.check(pen(np.full(n, c)) == 0, "the total variation of a constant is not zero", got=pen(np.full(n, c)), **info)
        ctx.check(abs(pen(x + c) - v) <= 4 * tol + alpha * eps * (8 * n + 32) * abs(c) * n, "the total variation depends on the mean", **info)
        ctx.count("zero on constants")
    elif kind != "group":
        ctx.check(pen(np.zeros(n)) == 0, "a norm is not zero at zero", **info)
    # the prox does not increase the penalty: pen(p) + |p - x|^2 / step <= pen(x)
    if n <= 60 and np.abs(x).max() > 1e-100:
        s = float(np.abs(x).max()) * 10.0 ** rng.uniform(-2, 1) / (alpha or 1.0)
        import warnings
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            p = pen.prox(x, s)
        slack = 8 * tol + (1e-5 * alpha * n * 4 if kind == "tv2d" else 0) + 1e-9 * v
        if not w:
            ctx.check(pen(p) + float(((p - x) ** 2).sum()) / s <= v + slack + 1e-9 * float((x ** 2).sum()) / s, "the proximal operator increases the penalty", got=pen(p), expected=v, step=s, **info)
            ctx.count("descent of the prox")


def wl_constraint(ctx, rng):
    kind = ["l1", "trace"][rng.randint(2)]
    n = 1 + rng.randint(30)
    a = [1.0, 2, 0.3, 50.0, float(10.0 ** rng.uniform(-20, 20))][rng.randint(5)]
    if kind == "trace":
        d = [k for k in range(1, n + 1) if n % k == 0]
        r = d[rng.randint(len(d))]
        C = cc.TraceBall(a, (r, n // r))
    else:
        C = cc.L1Ball(a)
    x = gen.vec(rng, n)[0]
    c = rng.randint(5)
    norm = lambda z: float(np.abs(z * 1.0).sum()) if kind == "l1" else float(np.linalg.svd(z.astype(float).reshape(r, n // r), compute_uv=False).sum())
    if c < 3 and norm(x) > 0 and np.isfinite(norm(x)):
        x = x / norm(x) * a * [0.5, 0.999, 1.001, 1.5, 1 - 1e-8, 1 + 1e-8][rng.randint(6)]
    elif c == 3:
        x = np.zeros(n)
        if rng.rand() < 0.5 and a >= 1:
            x[rng.randint(n)] = [1.0, -1.0][rng.randint(2)] * int(a)
            if rng.rand() < 0.5:
                x = x.astype(int)
                if rng.rand() < 0.3:
                    x = np.zeros(n, dtype=[np.int8, np.int16, np.int32][rng.randint(3)])
                    x[rng.randint(n)] = np.iinfo(x.dtype).min
    if not np.all(np.isfinite(x)) or np.abs(x * 1.0).max() > 1e150:
        raise Skip
    N = norm(x)
    info = dict(ball=kind, radius=a, x=x, norm=N)
    changed = gen.freeze(x)
    v = C(x)
    ctx.check(changed() is None, "evaluating a constraint modified the point", **info)
    ctx.check(v == 0 or v == np.inf, "the value of a constraint is neither zero nor infinity", got=v, **info)
    gap = 1e-9 * max(a, N) + (1.3e-7 if kind == "trace" else 0)
    if N <= a - 1e-9 * a:
        ctx.check(v == 0, "a point of the set has an infinite value", got=v, **info)
        ctx.count("inside")
    elif N > a + gap:
        ctx.check(v == np.inf, "a point out of the set has a finite value", got=v, **info)
        ctx.count("outside")
    if kind == "l1" and x.dtype == int:
        ctx.check((v == 0) == (N <= a), "an integer point of the boundary is on the wrong side", got=v, **info)
    ctx.key(kind, digest(x), a)
    # points of the interior reached by the projection on a smaller ball
    if x.dtype == float and N > 0:
        S = type(C)(a * 0.99, C.shape) if kind == "trace" else type(C)(a * 0.99)
        p = S.prox(x, 1.0)
        ctx.check(C(p) == 0, "the projection is not in the set", got=C(p), p=p, **info)
        ctx.count("projections inside")


def wl_operator(ctx, rng):
    r, c = 1 + rng.randint(9), 1 + rng.randint(9)
    if rng.rand() < 0.05:
        r, c = [(2, 70), (70, 2), (1, 150), (150, 1), (24, 23), (3, 45)][rng.randint(6)]
    if r * c == 1:
        raise Skip
    L = tv_prox.tv2d_linear_operator(r, c)
    L = L.toarray() if sparse.issparse(L) else np.asarray(L)
    info = dict(n_rows=r, n_cols=c)
    ctx.check(L.shape == (r * (c - 1) + c * (r - 1), r * c), "the operator of the total variation does not have one row per pair of neighbours", got=L.shape, **info)
    edges = set()
    for row in L:
        nz = np.nonzero(row)[0]
        ctx.check(nz.size == 2 and sorted(row[nz]) == [-1, 1], "a row of the operator of the total variation is not a difference", got=row, **info)
        i, j = nz
        ctx.check((j - i == c) or (j - i == 1 and j % c != 0), "a row of the operator of the total variation is not the difference of neighbours", got=(i, j), **info)
        edges.add((i, j))
    ctx.check(len(edges) == L.shape[0], "a pair of neighbours is counted twice by the operator of the total variation", **info)
    x = gen.vec(rng, r * c)[0]
    if np.abs(x).max() < 1e100:
        u, v = np.abs(L.dot(x)).sum(), cpn.TotalVariation2D(1.0, (r, c))(x)
        ctx.check(abs(u - v) <= 1e-12 * (np.abs(x).sum() + 1e-300), "the operator and the penalty disagree on the total variation", got=u, expected=v, x=x, **info)
    ctx.count("operators")
    ctx.key("operator", r, c, digest(x))


def wl_groups(ctx, rng):
    """Groups that are not contiguous or not increasing are rejected, valid ones are not."""
    n = 3 + rng.randint(10)
    cut = np.sort(rng.choice(np.arange(1, n), size=min(n - 1, 1 + rng.randint(3)), replace=False))
    G = [np.arange(a, b) for a, b in zip(np.r_[0, cut], np.r_[cut, n])]
    if rng.rand() < 0.5:
        G = [g.tolist() for g in G]
    cpn.GroupL1(1.0, G)
    k = rng.randint(6)
    if k == 4:
        bad = [[0, 2, 1, 3]] + [[q] for q in range(4, n)]
    elif k == 5:
        bad = [[0, 1, 1]] + [[q] for q in range(2, n)]
    elif k == 0:
        bad = G[::-1]
    elif k == 1:
        bad = [[0, 2]] + [[q] for q in range(3, n)]
    elif k == 2:
        bad = [np.arange(0, 2), np.arange(1, n)]
    else:
        bad = [np.arange(n)[::-1]]
    if k == 0 and len(G) < 2:
        raise Skip
    try:
        cpn.GroupL1(1.0, bad)
    except ValueError:
        ctx.count("groups rejected")
    else:
        ctx.fail("groups that are not contiguous and increasing are accepted", groups=[list(map(int, g)) for g in bad])
    ctx.key("groups", k, str(G))


WORKLOADS = [("penalties", wl_penalty, 4000, 80000), ("large", gen.large(wl_penalty), 40, 400), ("constraints", wl_constraint, 2000, 40000), ("operators", wl_operator, 300, 5000), ("groups", wl_groups, 60, 500)]
