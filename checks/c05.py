"""C05: projections onto the constraint sets."""
import numpy as np
import copt.constraint as cc
from checks.c04 import guard, shape2, u_of, integer_point, same_on_integers
from vlib import gen, ref
from vlib.core import digest, Skip

ID = "C05"
RULE = ("random (set, radius, point, memory layout) judged by feasibility and the variational inequality over the "
        "whole set (support function); non-trivial: the point is outside; distinct by digest of point and radius")
ASSUMPTIONS = ["entries of the point at most 1e150 times the radius, 1e9 where judged against closed forms", "squares of the entries in the range of floats", "long double reference"]
REQUIRED = ["l1 outside", "l1 inside", "l2 outside", "l2 inside", "linf outside", "linf inside",
            "simplex outside", "simplex inside", "trace outside", "trace inside", "ties at the threshold", "integer points", "large", "far points"]


def radius(rng, x):
    sc = float(np.abs(x).sum()) or 1.0
    c = rng.randint(8)
    if c == 7:
        return [1, 1.0, 3, 2.5][rng.randint(4)]
    return float(sc * [1e-6, 1e-3, 0.05, 0.4, 0.9, 1.0, 1.7][c] * (1 if rng.rand() < 0.4 else 0.5 + rng.rand()))


def dot_norms(p_set, v):
    """norm and dual norm of a vector for the unit ball of the set"""
    v = ref._ld(v)
    if p_set == "l1":
        return np.abs(v).sum(), np.abs(v).max()
    if p_set == "l2":
        n = np.sqrt((v * v).sum())
        return n, n
    return np.abs(v).max(), np.abs(v).sum()


def wl_ball(ctx, rng):
    which = ["l1", "l1", "l2", "linf"][rng.randint(4)]
    n = gen.size(rng)
    x, kind = gen.vec(rng, n)
    s = radius(rng, x)
    if rng.rand() < 0.2 and x.any():
        s = near(rng, dot_norms(which, x)[0])
        ctx.count("points near the boundary")
    if np.abs(x).max() > 1e9 * s:
        raise Skip
    xl, lay = gen.layout(rng, x)
    ball = {"l1": cc.L1Ball, "l2": cc.L2Ball, "linf": cc.LinfBall}[which](s)
    args = [(), (1.0,), (0.3,)][rng.randint(3)]
    if which == "l1" and rng.rand() < 0.3:
        call = (lambda v: cc.euclidean_proj_l1ball(v, s)) if s != 1 or rng.rand() < 0.5 else cc.euclidean_proj_l1ball
    else:
        call = lambda v: ball.prox(v, *args)
    info = dict(set=which, radius=s, layout=lay)
    p = guard(ctx, xl, call, **info)
    u = u_of(xl)
    X = ref._ld(xl)
    n1 = float(np.abs(X).sum())
    nx, _ = dot_norms(which, X)
    npn, _ = dot_norms(which, p)
    _, dual = dot_norms(which, X - ref._ld(p))
    tol = 2 * (8 + n) * u * (n1 + s)
    info.update(x=xl, got=p)
    ctx.check(npn <= s + tol, "the projection is outside of the %s ball" % which, norm=float(npn), **info)
    if nx <= s * (1 - 1e-9 if u == ref.EPS else 1 - 1e-4):
        ctx.check(np.array_equal(p, xl), "the projection moves a point inside the %s ball" % which, **info)
        ctx.count(which + " inside")
    else:
        ctx.count(which + " outside")
        ctx.key(which, digest(xl), s)
    gap = s * dual - ((X - p) * p).sum()
    ctx.check(gap <= tol * (float(dual) + float(np.abs(X).max()) + s), "not the projection on the %s ball: a feasible point is closer" % which,
              gap=float(gap), **info)
    # element by element against the closed form
    if which == "l1":
        e = ref.l1_project(X, s)
        ctx.check(np.all(np.abs(p - e) <= tol), "projection on the l1 ball is wrong", expected=e.astype(float), **info)
        ab = np.abs(x)
        if len(np.unique(ab)) < n:
            ctx.count("ties at the threshold")
    elif which == "linf":
        e = np.minimum(np.maximum(X, -s), s)
        ctx.check(np.all(np.abs(p - e) <= 2 * u * s), "projection on the linf ball is wrong", expected=e.astype(float), **info)
    else:
        e = X if nx <= s else X * (s / nx)
        ctx.check(np.all(np.abs(p - e) <= 8 * u * (n + 4) * np.abs(X) + 1e-300), "projection on the l2 ball is wrong", expected=e.astype(float), **info)
    # projecting again moves nothing (beyond rounding)
    p2 = np.asarray(call(p.copy()))
    ctx.check(np.all(np.abs(p2 - p) <= tol), "the projection is not idempotent", again=p2, **info)
    ctx.sample(**info)


def near(rng, nx):
    """A radius such that the point is just outside, or just inside"""
    return float(nx) * (1 - (1 if rng.rand() < 0.7 else -1) * 10.0 ** rng.uniform(-13, -2))


def wl_simplex(ctx, rng):
    n = gen.size(rng)
    x, kind = gen.vec(rng, n)
    s = radius(rng, x)
    c = rng.randint(4)
    if c == 0:  # already on the simplex
        x = np.abs(x)
        if x.sum() > 0:
            x = x / x.sum() * s
        else:
            x = np.full(n, s / n)
        kind = "inside"
        if rng.rand() < 0.5:
            s = 2.0 ** rng.randint(-3, 4)
            k = rng.randint(1, n + 1)
            w = rng.multinomial(64, np.ones(n) / n)
            x = w * s / 64.0
            kind = "inside exact"
    elif c == 1 and n > 1:  # sums to the radius but with negative entries
        x = x + (s - x.sum()) / n
        if rng.rand() < 0.5:
            w = rng.randint(-9, 10, size=n).astype(float)
            w[0] += 64 - w.sum()
            s = 1.0
            x = w / 64
        kind = "sum"
    elif c == 2 and rng.rand() < 0.5 and x.any():  # nearly on the simplex
        x = np.abs(x)
        s = near(rng, x.sum())
        kind = "near"
    if np.abs(x).max() > 1e9 * s:
        raise Skip
    xl, lay = gen.layout(rng, x)
    k = rng.randint(3)
    if k == 0:
        call = lambda v: cc.euclidean_proj_simplex(v, s)
    elif k == 1:
        call = lambda v: cc.SimplexConstraint(s).prox(v, 0.7)
    else:
        call = (lambda v: cc.SimplexConstraint(s).prox(v, None))
    info = dict(radius=s, layout=lay, kind=kind)
    p = guard(ctx, xl, call, **info)
    info.update(x=xl, got=p)
    u = u_of(xl)
    X = ref._ld(xl)
    tol = 2 * (8 + n) * u * (float(np.abs(X).sum()) + s)
    ctx.check(p.min() >= -0.0, "the projection on the simplex has a negative entry", **info)
    ctx.check(abs(ref._ld(p).sum() - s) <= tol, "the projection on the simplex does not sum to the radius", total=float(p.sum()), **info)
    g = X - p
    gap = s * g.max() - (g * p).sum()
    ctx.check(gap <= tol * (float(np.abs(g).max()) + s), "not the projection on the simplex: a feasible point is closer", gap=float(gap), **info)
    e = ref.simplex_project(X, s)
    ctx.check(np.all(np.abs(p - e) <= tol), "projection on the simplex is wrong", expected=e.astype(float), **info)
    if kind.startswith("inside"):
        ctx.check(np.all(np.abs(p - xl) <= tol), "the projection moves a point of the simplex", **info)
        ctx.count("simplex inside")
    else:
        ctx.count("simplex outside")
        ctx.key("simplex", digest(xl), s)


def wl_trace(ctx, rng):
    m, n = shape2(rng)
    if rng.rand() < 0.3:
        X = rng.randn(m, 1).dot(rng.randn(1, n))
    elif rng.rand() < 0.2:
        X = np.eye(m, n) * rng.randn()
    elif rng.rand() < 0.3:
        X = gen.spectrum(rng, m, n)
    else:
        X = gen.vec(rng, m * n)[0].reshape(m, n)
    x = np.ascontiguousarray(X.ravel())
    x, lay = gen.layout(rng, x, which=["plain", "readonly", "float32"][rng.randint(3)])
    sv = np.linalg.svd(x.reshape(m, n).astype(float), compute_uv=False)
    s = radius(rng, sv)
    if rng.rand() < 0.2 and sv.any():
        s = near(rng, sv.sum())
    if sv[0] > 1e9 * s:
        raise Skip
    info = dict(radius=s, shape=(m, n), layout=lay)
    p = guard(ctx, x, lambda v: cc.TraceBall(s, (m, n)).prox(v, 1.0), **info)
    info.update(x=x, got=p)
    P = p.reshape(m, n).astype(float)
    G = (x.astype(float) - p).reshape(m, n)
    tol = 64 * u_of(x) * (sv.sum() + s) * np.sqrt(m * n)
    nuc = np.linalg.svd(P, compute_uv=False).sum()
    ctx.check(nuc <= s + tol, "the projection is outside of the trace ball", norm=nuc, **info)
    gap = s * np.linalg.svd(G, compute_uv=False)[0] - (G * P).sum()
    ctx.check(gap <= tol * (sv[0] + s), "not the projection on the trace ball: a feasible point is closer", gap=gap, **info)
    if sv.sum() < s * (1 - 1e-4):
        ctx.check(np.abs(P.ravel() - x).max() <= tol, "the projection moves a point inside the trace ball", **info)
        ctx.count("trace inside")
    else:
        ctx.count("trace outside")
        ctx.key("trace", digest(x), s)


def wl_rejects(ctx, rng):
    """Radii that are not positive and points that are not vectors are rejected, never 'projected'."""
    n = 1 + rng.randint(6)
    v = rng.randn(n) * 10 + 20
    for f, args in ((cc.euclidean_proj_l1ball, (v, -rng.rand())), (cc.euclidean_proj_l1ball, (v, 0)),
                    (cc.euclidean_proj_simplex, (v, -rng.rand())), (cc.euclidean_proj_simplex, (v, 0.0)),
                    (cc.euclidean_proj_l1ball, (v.reshape(1, -1), 1.0)), (cc.euclidean_proj_simplex, (v.reshape(-1, 1), 1.0))):
        try:
            out = f(*args)
        except (AssertionError, ValueError):
            ctx.count("rejections")
            continue
        ctx.fail("%s accepted invalid arguments" % f.__name__, args=args, out=out)
    ctx.key("reject", digest(v))


def wl_far(ctx, rng):
    """Points and radii whose sizes differ by many orders of magnitude: the result is still a point of the set, and the vertex where the entries are far apart."""
    n = 1 + rng.randint(12)
    scale, ratio = 10.0 ** rng.uniform(-70, 70), 10.0 ** rng.uniform(3, 70 if rng.rand() < 0.6 else 20)
    s = scale / ratio
    x = rng.randn(n)
    if rng.rand() < 0.4:
        x[rng.randint(n)] = [1, -1][rng.randint(2)] * np.abs(x).max()  # ties
    if rng.rand() < 0.3:
        x[rng.rand(n) < 0.4] = 0
    if not x.any():
        x[0] = 1.0
    x = x * scale
    tiny = rng.rand() < 0.2
    if tiny:  # well inside
        s = scale * ratio * n
    kind = ["l1", "l2", "linf", "simplex", "trace"][rng.randint(5)]
    info = dict(set=kind, radius=s)
    if kind == "trace":
        d = [k for k in range(1, n + 1) if n % k == 0]
        r = d[rng.randint(len(d))]
        C = cc.TraceBall(s, (r, n // r))
    else:
        C = {"l1": cc.L1Ball, "l2": cc.L2Ball, "linf": cc.LinfBall, "simplex": cc.SimplexConstraint}[kind](s)
    p = guard(ctx, x, lambda v: C.prox(v, 1.0), **info)
    tol = 64 * ref.EPS * (n + 4) ** 2
    info["x"] = x
    ctx.check(np.isfinite(p).all(), "the projection of a far point is not finite", got=p, **info)
    if kind == "trace":
        size = np.linalg.svd(p.reshape(C.shape), compute_uv=False).sum()
    else:
        size = {"l1": np.abs(p).sum(), "linf": np.abs(p).max(), "simplex": p.sum(), "l2": np.abs(p).max() * np.sqrt(((p / max(np.abs(p).max(), 1e-300)) ** 2).sum())}[kind]
    ctx.count("far points")
    ctx.key(kind, digest(x), s)
    if kind == "simplex":
        ctx.check((p >= 0).all() and abs(size - s) <= tol * s, "the projection of a far point is not on the simplex", size=size, got=p, **info)
        if not tiny:
            e = np.where(x == x.max(), s / (x == x.max()).sum(), 0)
            if np.all((x == x.max()) | (x.max() - x > 2 * s)):
                ctx.check(np.abs(p - e).max() <= tol * s, "the projection of a far point on the simplex is not the closest point", got=p, expected=e, **info)
        return
    ctx.check(size <= s * (1 + tol), "the projection of a far point is outside of the set", size=size, got=p, **info)
    if tiny:
        ctx.check(np.abs(p - x).max() <= (0 if kind != "trace" else tol * scale * 8), "a point well inside the set is moved", got=p, **info)
        return
    ctx.check(size >= s * (1 - tol), "the projection of a point outside of the set is not on its boundary", size=size, got=p, **info)
    a = np.abs(x)
    if kind == "l1" and np.all((a == a.max()) | (a.max() - a > 2 * s)):
        e = np.where(a == a.max(), s / (a == a.max()).sum(), 0) * np.sign(x)
        ctx.check(np.abs(p - e).max() <= tol * s, "the projection of a far point on the l1 ball is not the closest point", got=p, expected=e, **info)
    elif kind == "l2":
        e = x / scale
        e = e / np.sqrt((e * e).sum()) * s
        ctx.check(np.abs(p - e).max() <= tol * s, "the projection of a far point on the l2 ball is not the closest point", got=p, expected=e, **info)


def wl_integers(ctx, rng):
    n = 1 + rng.randint(24)
    x = integer_point(rng, n)
    s = [1, 2, 7, 0.5, 30.0, 200][rng.randint(6)]
    kind = ["l1", "l2", "linf", "simplex", "trace"][rng.randint(5)]
    if kind == "trace":
        d = [k for k in range(1, n + 1) if n % k == 0]
        r = d[rng.randint(len(d))]
        C = cc.TraceBall(s, (r, n // r))
    else:
        C = {"l1": cc.L1Ball, "l2": cc.L2Ball, "linf": cc.LinfBall, "simplex": cc.SimplexConstraint}[kind](s)
    same_on_integers(ctx, x, lambda v: C.prox(v, 1.0), kind == "trace", set=kind, radius=s)


WORKLOADS = [("far", wl_far, 2500, 30000), ("integers", wl_integers, 600, 10000),
             ("balls", wl_ball, 4000, 60000), ("simplex", wl_simplex, 2500, 40000), ("trace", wl_trace, 1500, 20000),
             ("large balls", gen.large(wl_ball), 80, 900), ("large simplex", gen.large(wl_simplex), 80, 900), ("large trace", gen.large(wl_trace), 40, 400), ("rejects", wl_rejects, 100, 300)]
