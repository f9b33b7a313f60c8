"""C04: proximal operators of the penalties are exact minimisers."""
import numpy as np
from scipy import sparse, optimize
import copt.penalty as cp
import copt.tv_prox as tv
from vlib import gen, ref
from vlib.core import digest, Skip

ID = "C04"
RULE = ("random (penalty, alpha, step, point, memory layout) cases judged by the optimality conditions of the "
        "minimisation problem; non-trivial: the prox moves the point; distinct by the digest of point and options")
ASSUMPTIONS = ["optimality conditions evaluated in long double", "2-D TV: dense bounded least squares (BVLS) solves the dual problem; images up to 6x6 for that comparison"]
REQUIRED = ["L1", "GroupL1", "TraceNorm", "FusedLasso", "TV2D compared with the dual", "rows/cols", "TV2D of one line", "TV2D warned", "TV2D within tolerance", "TV2D symmetry", "group zeroed", "group kept", "integer points", "large"]


def pick_t(rng, x):
    """alpha and step size, around the scale of x."""
    sc = np.abs(x).max() if x.size else 1.0
    sc = sc if sc > 0 else 1.0
    c = rng.randint(7)
    t = sc * [1e-6, 1e-2, 0.1, 0.5, 1.0, 3.0, 100.0][c] * (1 if rng.rand() < 0.3 else rng.rand() + 0.2)
    if rng.rand() < 0.05:
        t = 0.0
    elif rng.rand() < 0.08:
        t = sc * 10.0 ** rng.uniform(3, 30)  # far more than needed
    if rng.rand() < 0.1 and x.size:
        t = float(np.abs(x[rng.randint(x.size)]))  # a tie with the threshold
    if rng.rand() < 0.5:
        step = [1.0, 0.5, 2.0, 1e-3, 37.0][rng.randint(5)]
        alpha = t / step
    else:
        alpha = [1.0, 0.1, 3][rng.randint(3)]
        step = t / alpha
    return float(alpha), float(step)


def get_x(rng, n, f32=True):
    x, kind = gen.vec(rng, n)
    xl, lay = gen.layout(rng, x, f32=f32)
    return xl, kind, lay


def u_of(x):
    return ref.EPS32 if x.dtype == np.float32 else ref.EPS


def guard(ctx, x, call, **info):
    x0 = x.copy()
    p = np.asarray(call(x))
    ctx.check(p.shape == x.shape, "the prox changes the shape", got=p.shape, x=x0, **info)
    ctx.check(x.tobytes() == x0.tobytes(), "the prox modified its argument", mech="mutation", x=x0, **info)
    ctx.check(np.all(np.isfinite(p)), "the prox is not finite", x=x0, got=p, **info)
    return p


def wl_l1(ctx, rng):
    n = gen.size(rng)
    x, kind, lay = get_x(rng, n)
    alpha, step = pick_t(rng, x.astype(float))
    pen = cp.L1Norm(alpha)
    info = dict(alpha=alpha, step=step, layout=lay)
    p = guard(ctx, x, lambda v: pen.prox(v, step), **info)
    t = ref.LD(alpha) * ref.LD(step)
    e = ref.soft(ref._ld(x), t)
    ctx.check(np.all(np.abs(p - e) <= 8 * u_of(x) * (np.abs(x) + float(t))), "prox of the l1 norm is wrong",
              x=x, got=p, expected=e.astype(float), **info)
    ctx.count("L1")
    if np.any(p != x):
        ctx.key("l1", digest(x), alpha, step)


def make_groups(rng, n):
    """Contiguous increasing groups, possibly leaving features out."""
    groups, i = [], 0
    small = rng.rand() < 0.5
    stop = n if rng.rand() < 0.85 else rng.randint(n + 1)  # features at the end may be in no group
    while i < n:
        if i >= stop:
            break
        if rng.rand() < 0.25:
            i += 1 + rng.randint(3)  # unpenalised features
            continue
        L = 1 + rng.randint(5) if small or rng.rand() < 0.8 else 1 + rng.randint(max(1, n // 2))
        L = min(L, n - i)
        g = list(range(i, i + L))
        groups.append(np.arange(i, i + L) if rng.rand() < 0.3 else g)
        i += L
    return groups


def wl_group(ctx, rng):
    n = gen.size(rng)
    x, kind, lay = get_x(rng, n)
    groups = make_groups(rng, n)
    alpha, step = pick_t(rng, x.astype(float))
    if groups and rng.rand() < 0.3:
        g = groups[rng.randint(len(groups))]
        alpha, step = float(np.linalg.norm(x[np.asarray(g)])), 1.0 + 1e-3 * rng.randn()
    pen = cp.GroupL1(alpha, groups)
    info = dict(alpha=alpha, step=step, layout=lay, groups=[list(map(int, g)) for g in groups][:30])
    p = guard(ctx, x, lambda v: pen.prox(v, step), **info)
    X = ref._ld(x)
    e = X.copy()
    t = ref.LD(alpha) * ref.LD(step)
    tol = np.zeros(n)
    for g in groups:
        g = np.asarray(g)
        nr = np.sqrt((X[g] ** 2).sum())
        tol[g] = 8 * u_of(x) * (g.size + 4) * (float(nr) + float(t)) * (np.abs(x[g]).astype(float) / max(float(nr), 1e-300))
        if nr > t:
            e[g] = X[g] * (1 - t / nr)
            ctx.count("group kept")
        else:
            e[g] = 0
            ctx.count("group zeroed")
    ctx.check(np.all(np.abs(p - e) <= tol + 1e-300), "prox of the group penalty is wrong", x=x, got=p,
              expected=e.astype(float), **info)
    ctx.count("GroupL1")
    if np.any(p != x):
        ctx.key("group", digest(x), alpha, step, len(groups))


def shape2(rng):
    if gen.FORCED:
        return [(3, 300), (300, 3), (110, 90), (1, 500), (40, 220)][rng.randint(5)]
    return [(1, 1), (1, 5), (5, 1), (3, 3), (4, 7), (7, 4), (10, 10), (16, 3), (2, 20)][rng.randint(9)]


def wl_trace(ctx, rng):
    m, n = shape2(rng)
    if rng.rand() < 0.3:
        X = rng.randn(m, 1).dot(rng.randn(1, n))
    elif rng.rand() < 0.2:
        X = np.eye(m, n) * rng.randn()
    elif rng.rand() < 0.3:
        X = gen.spectrum(rng, m, n)
    else:
        X, _ = gen.vec(rng, m * n)
        X = X.reshape(m, n)
    x = np.ascontiguousarray(X.ravel())
    x, lay = gen.layout(rng, x, which=["plain", "readonly", "float32"][rng.randint(3)])
    sv = np.linalg.svd(x.reshape(m, n).astype(float), compute_uv=False)
    alpha, step = pick_t(rng, sv)
    pen = cp.TraceNorm(alpha, (m, n))
    info = dict(alpha=alpha, step=step, shape=(m, n))
    p = guard(ctx, x, lambda v: pen.prox(v, step), **info)
    t = alpha * step
    P, G = p.reshape(m, n).astype(float), (x.astype(float) - p).reshape(m, n)
    tol = 64 * u_of(x) * (sv[0] + t) * np.sqrt(m * n)
    nuc = np.linalg.svd(P, compute_uv=False).sum()
    ctx.check(np.linalg.svd(G, compute_uv=False)[0] <= t + tol, "prox of the trace norm: residual outside of the dual ball", x=x, got=p, **info)
    ctx.check((G * P).sum() >= t * nuc - tol * (nuc + sv[0]), "prox of the trace norm is not the minimiser", x=x, got=p, **info)
    if t > sv[0] * 1.01:
        ctx.check(not P.any(), "prox of the trace norm of a strength above the spectral norm is not zero", x=x, got=p, **info)
        ctx.count("zero by trace norm")
    ctx.count("TraceNorm")
    if np.any(p != x):
        ctx.key("trace", digest(x), alpha, step)


def check_tv1d(ctx, w, p, t, u, **info):
    n = w.size
    sc = float(np.abs(w).max()) + min(t, n * float(np.ptp(w.astype(float))))  # constant beyond
    tol = 32 * u * n * (float(np.abs(np.cumsum(w.astype(float))).max()) + sc)
    bound, end, gap = ref.tv1d_kkt(w, p, ref.LD(t))
    ctx.check(end <= tol, "the prox of 1-D TV changes the sum", w=w, got=p, by=float(end), tol=tol, **info)
    ctx.check(bound <= tol, "the prox of 1-D TV is not optimal (dual constraint)", w=w, got=p, by=float(bound), tol=tol, **info)
    if gap.size:
        lim = tol * np.abs(np.diff(ref._ld(p))) + 4 * (t + tol) * u * n * sc
        ctx.check(np.all(gap <= lim), "the prox of 1-D TV is not optimal (complementarity)", w=w, got=p,
                  by=float(gap.max()), tol=tol, **info)


def wl_fused(ctx, rng):
    n = gen.size(rng, 0.08)
    w, kind, lay = get_x(rng, n)
    if w.dtype == np.float32 and n > 300:
        w = w[:300]
    alpha, step = pick_t(rng, w.astype(float))
    if kind == "mixed" and rng.rand() < 0.5:
        alpha *= 1e-3
    if rng.rand() < 0.5:
        p = guard(ctx, w, lambda v: cp.FusedLasso(alpha).prox(v, step), alpha=alpha, step=step)
    else:
        p = guard(ctx, w, lambda v: tv.prox_tv1d(v, alpha * step), alpha=alpha, step=step)
    check_tv1d(ctx, w, p, alpha * step, u_of(w), alpha=alpha, step=step, layout=lay, kind=kind)
    ctx.count("FusedLasso")
    if np.any(p != w):
        ctx.key("fused", digest(w), alpha, step)
        ctx.sample(penalty="FusedLasso", w=w, alpha=alpha, step=step, prox=p)


def wl_rowscols(ctx, rng):
    m, n = 1 + rng.randint(9), 1 + rng.randint(9)
    if rng.rand() < 0.1:
        m, n = [(70, 2), (2, 70), (130, 1), (1, 130), (40, 40)][rng.randint(5)]
    x, _ = gen.vec(rng, m * n)
    alpha, step = pick_t(rng, x)
    t = alpha * step
    for which, f in (("cols", tv.prox_tv1d_cols), ("rows", tv.prox_tv1d_rows)):
        x0 = x.copy()
        P = f(t, x, m, n)
        ctx.check(np.array_equal(x, x0), "prox_tv1d_%s modified its argument" % which, mech="mutation")
        ctx.check(P.shape == (m * n,), "shape of prox_tv1d_" + which, got=P.shape)
        P, X = P.reshape(m, n), x.reshape(m, n)
        if which == "cols":
            P, X = P.T, X.T
        for k in range(X.shape[0]):
            check_tv1d(ctx, X[k].copy(), P[k].copy(), t, ref.EPS, which=which, shape=(m, n))
    ctx.count("rows/cols")
    ctx.key("rc", digest(x), t, m, n)


def tv2d_dual(x, m, n, t):
    D = []
    for i in range(m):
        for j in range(n):
            for (a, b) in ((i + 1, j), (i, j + 1)):
                if a < m and b < n:
                    r = np.zeros((m, n))
                    r[i, j], r[a, b] = -1, 1
                    D.append(r.ravel())
    D = np.array(D)
    y = optimize.lsq_linear(D.T, x, bounds=(-t, t), method="bvls", tol=1e-15, max_iter=2000)
    return x - D.T.dot(y.x), D


def wl_tv2d(ctx, rng):
    m, n = 2 + rng.randint(5), 2 + rng.randint(5)
    x, kind = gen.vec(rng, m * n, kind=["normal", "ties", "steps", "onehot", "ramp", "positive", "sparse"][rng.randint(7)])
    sc = np.abs(x).max() or 1.0
    x = x / sc
    t = [0.01, 0.1, 0.3, 1.0, 5.0][rng.randint(5)] * (0.5 + rng.rand())
    x, lay = gen.layout(rng, x)
    step = [1.0, 0.5, 4.0][rng.randint(3)]
    pen = cp.TotalVariation2D(t / step, (m, n), max_iter=200000, tol=1e-11)
    info = dict(alpha=t / step, step=step, shape=(m, n))
    p = guard(ctx, x, lambda v: pen.prox(v, step), **info)
    x = x.astype(float)
    e, D = tv2d_dual(x, m, n, t)
    obj = lambda q: t * np.abs(D.dot(q)).sum() + 0.5 * ((q - x) ** 2).sum()
    # p = x - D^T y is optimal iff the objectives agree (strong convexity: |p-e|^2/2 <= obj(p)-obj(e))
    err = np.abs(p - e).max()
    ctx.count("TV2D compared with the dual")
    ctx.check(obj(e) <= obj(p) + 1e-9, "(reference of 2-D TV is not optimal)", mech="reference")
    ctx.check(err <= 2e-6, "prox of 2-D TV is not the minimiser", x=x, got=p, expected=e, error=err,
              objective=obj(p), best=obj(e), **info)
    ctx.key("tv2d", digest(x), t)


def wl_tv2d_warns(ctx, rng):
    """With any budget and tolerance: close to the minimiser, or a warning says it is not."""
    m, n = 2 + rng.randint(4), 2 + rng.randint(4)
    scale = [1.0, 1.0, 1e3, 1e-3][rng.randint(4)]
    x = rng.randn(m * n) * scale
    t = [0.1, 0.5, 2.0][rng.randint(3)] * scale
    if rng.rand() < 0.3:
        kw, tol = {}, 1e-6
    else:
        tol = [1e-3, 1e-6, 1e-9][rng.randint(3)]
        kw = dict(max_iter=[1, 3, 10, 1000][rng.randint(4)], tol=tol)
    import warnings
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        p = cp.TotalVariation2D(t, (m, n), **kw).prox(x, 1.0)
    e, D = tv2d_dual(x, m, n, t)
    err = np.abs(p - e).max()
    warned = any(issubclass(w.category, (RuntimeWarning, UserWarning)) for w in rec)
    ctx.check(warned or err <= 25 * tol + 1e-9 * scale, "prox of 2-D TV is far from the minimiser and did not warn", x=x, t=t,
              error=err, tol=tol, options=kw, shape=(m, n))
    ctx.count("TV2D warned" if warned else "TV2D within tolerance")
    ctx.key("warns", digest(x), t)


def wl_tv2d_large(ctx, rng):
    """Images beyond the reach of the dual solver, by what any minimiser satisfies."""
    if rng.rand() < 0.5:
        n = gen.size(rng, 0)
        m, n = (1, n) if rng.rand() < 0.5 else (n, 1)
        x, kind = gen.vec(rng, m * n)
        x = x / (np.abs(x).max() or 1.0)
        t = 10.0 ** rng.uniform(-2, 1)
        p = guard(ctx, x, lambda v: cp.TotalVariation2D(t, (m, n), max_iter=1000, tol=1e-12).prox(v, 1.0), t=t, shape=(m, n))
        b, e, g = ref.tv1d_kkt(x, p, t)
        tol = 1e-9 * (1 + t)
        ctx.check(b <= tol and e <= tol and (g.size == 0 or g.max() <= tol), "prox of 2-D TV of a single line is not the 1-D prox",
                  x=x, got=p, t=t, shape=(m, n))
        ctx.count("TV2D of one line")
    else:
        m, n = 2 + rng.randint(12), 2 + rng.randint(12)
        x = rng.randn(m, n)
        t = 10.0 ** rng.uniform(-2, 0)
        kw = dict(max_iter=100000, tol=1e-10)
        p = cp.TotalVariation2D(t, (m, n), **kw).prox(x.ravel(), 1.0).reshape(m, n)
        pt = cp.TotalVariation2D(t, (n, m), **kw).prox(x.T.ravel().copy(), 1.0).reshape(n, m)
        pf = cp.TotalVariation2D(t, (m, n), **kw).prox(x[::-1, ::-1].ravel().copy(), 1.0).reshape(m, n)
        ctx.check(abs(p.sum() - x.sum()) <= 1e-6 * m * n, "prox of 2-D TV changes the sum", x=x, got=p, t=t)
        ctx.check(np.abs(p - pt.T).max() <= 1e-5, "prox of 2-D TV treats rows and columns differently", x=x, t=t,
                  err=np.abs(p - pt.T).max())
        ctx.check(np.abs(p - pf[::-1, ::-1]).max() <= 1e-5, "prox of 2-D TV is not invariant to flips", x=x, t=t)
        # optimality against random feasible directions of a strongly convex function:
        # F(q) >= F(p) + |q-p|^2/2
        def F(q):
            return t * (np.abs(np.diff(q, axis=0)).sum() + np.abs(np.diff(q, axis=1)).sum()) + 0.5 * ((q - x) ** 2).sum()
        for _ in range(6):
            k = rng.randint(3)
            if k == 0:
                d = rng.randn(m, n)
            elif k == 1:
                d = np.zeros((m, n))
                i, j = rng.randint(m), rng.randint(n)
                d[: i + 1, : j + 1] = 1
            else:
                d = (p == p.ravel()[rng.randint(m * n)]).astype(float)
            d = d * 10.0 ** rng.uniform(-4, 0) * rng.choice([-1, 1]) / max(np.abs(d).max(), 1e-9)
            ctx.check(F(p + d) >= F(p) - 1e-5, "prox of 2-D TV is not a minimiser", x=x, got=p, t=t, direction=d)
        ctx.count("TV2D symmetry")
    ctx.key("tv2dl", digest(x), t)


def integer_point(rng, n):
    dt = [np.uint8, np.uint16, np.uint32, np.int8, np.int16, np.int32, np.int64][rng.randint(7)]
    big = 128 if dt == np.int8 else 256 if dt == np.uint8 or rng.rand() < 0.5 else 1001
    x = rng.randint(0, big, size=n)
    if rng.rand() < 0.4:
        x[rng.rand(n) < 0.6] = 0
    if dt in (np.int8, np.int16, np.int32, np.int64):
        x = x * rng.choice([-1, 1], size=n)
    x = x.astype(dt)
    if dt in (np.int8, np.int16, np.int32) and rng.rand() < 0.3:
        x[rng.randint(n)] = np.iinfo(dt).min  # has no opposite in its type
    return x


def same_on_integers(ctx, x, call, single, **info):
    """The result on integers is the one on the same floats (single: computed in single precision for small integers)."""
    p = guard(ctx, x, call, dtype=str(x.dtype), **info)
    e = call(x.astype(float))
    u = ref.EPS32 if single and x.dtype.itemsize < 4 else ref.EPS
    ctx.check(np.all(np.abs(p.astype(float) - e) <= 64 * u * (x.size + 1) * (np.abs(x.astype(float)).max() + 1)), "the result on integers is not the one on the same numbers as floats",
              x=x, dtype=str(x.dtype), got=p, expected=e, **info)
    ctx.count("integer points")
    if np.any(e != x):
        ctx.key("int", digest(x), digest(np.asarray(e)))


def wl_integers(ctx, rng):
    n = 1 + rng.randint(24)
    x = integer_point(rng, n)
    t = [1, 2, 7, 0.5, 30.0, 200][rng.randint(6)]
    step = [1, 1.0, 0.25, 3][rng.randint(4)]
    kind = ["l1", "group", "trace"][rng.randint(3)]
    if kind == "l1":
        pen = cp.L1Norm(t)
    elif kind == "group":
        pen = cp.GroupL1(t, make_groups(rng, n))
    else:
        d = [k for k in range(1, n + 1) if n % k == 0]
        r = d[rng.randint(len(d))]
        pen = cp.TraceNorm(t, (r, n // r))
    same_on_integers(ctx, x, lambda v: pen.prox(v, step), kind == "trace", penalty=kind, alpha=t, step=step)


WORKLOADS = [
    ("integers", wl_integers, 600, 10000),
    ("l1", wl_l1, 1500, 20000),
    ("group", wl_group, 1500, 20000),
    ("trace", wl_trace, 1200, 15000),
    ("fused", wl_fused, 2500, 40000),
    ("large l1", gen.large(wl_l1), 60, 600),
    ("large group", gen.large(wl_group), 40, 400),
    ("large trace", gen.large(wl_trace), 40, 400),
    ("large fused", gen.large(wl_fused, (1500, 2500, 33000)), 24, 300, {"heavy": True}),
    ("rowscols", wl_rowscols, 500, 6000),
    ("tv2d", wl_tv2d, 200, 4000),
    ("tv2d_warns", wl_tv2d_warns, 200, 3000),
    ("tv2d_large", wl_tv2d_large, 120, 2000),
]
