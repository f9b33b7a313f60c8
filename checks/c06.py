"""C06: linear minimization oracles."""
from collections import defaultdict

import numpy as np
import copt.constraint as cc
from vlib import gen
from vlib.core import digest

ID = "C06"
RULE = ("random (set, radius, linear form, point, active set); the vertex returned is judged against the support function of "
        "the set; non-trivial: the linear form is not zero; distinct by digest of the linear form and point")
ASSUMPTIONS = ["linear forms without NaN or infinity (trace ball: entries between 1e-100 and 1e100, ARPACK refuses others)", "svd of numpy as the reference for the trace ball"]
REQUIRED = ["tiny weights", "l1", "simplex", "trace", "pairwise", "zero linear form", "ties in the linear form", "away vertex with ties",
            "weights", "forward equals away", "large", "extreme scales", "integer linear forms", "integer points"]


def alpha_of(rng):
    return [1, 1.0, 3, 0.25, float(10.0 ** rng.uniform(-4, 4)), float(1 + rng.rand())][rng.randint(6)]


def uvec(rng, n, ctx):
    u, kind = gen.vec(rng, n)
    a = np.abs(u)
    if not u.any():
        ctx.count("zero linear form")
    elif (a == a.max()).sum() > 1:
        ctx.count("ties in the linear form")
    if rng.rand() < 0.15 and a.any():
        # at any scale
        u = u / a.max() * 10.0 ** rng.uniform(-300, 300)
        ctx.count("extreme scales")
    elif rng.rand() < 0.1:
        u = integers(rng, n)
        ctx.count("integer linear forms")
    return u


def integers(rng, n):
    """of several types, with the smallest of the type among them"""
    dt = [np.int8, np.int16, np.int32, np.int64, np.uint8][rng.randint(5)]
    u = rng.randint(0 if dt == np.uint8 else -100, 101, size=n).astype(dt)
    if rng.rand() < 0.4:
        u[rng.randint(n)] = np.iinfo(dt).min
    return u


def point(rng, n, alpha):
    x = rng.randn(n) * (rng.rand(n) < 0.6)
    k = np.abs(x).sum()
    return x * (alpha * rng.rand() / k) if k else x


def layout(rng, v):
    big = np.abs(v * 1.0).max()
    return gen.layout(rng, v, f32=big == 0 or 1e-30 < big < 1e30)[0]


def wl_vanilla(ctx, rng):
    which = ["l1", "simplex"][rng.randint(2)]
    n = gen.size(rng)
    alpha = alpha_of(rng)
    u = uvec(rng, n, ctx)
    x = point(rng, n, alpha)
    if which == "simplex":
        x = np.abs(x)
        x[0] += alpha - x.sum()
    ul, xl = layout(rng, u), layout(rng, x)
    if rng.rand() < 0.1:
        xl = rng.randint(0 if which == "simplex" else -3, 4, size=n).astype([np.int8, np.int32, np.int64, np.uint8][rng.randint(4)] if which == "simplex" else [np.int8, np.int32, np.int64][rng.randint(3)])
        ctx.count("integer points")
    act = [None, defaultdict(float, {(1.0, 0): 0.5, (-1.0, n - 1): 0.5})][rng.randint(2)]
    before = None if act is None else dict(act)
    changed = gen.freeze(ul, xl)
    ball = cc.L1Ball(alpha) if which == "l1" else cc.SimplexConstraint(alpha)
    if which == "simplex" and alpha == 1 and rng.rand() < 0.5:
        ball = cc.SimplexConstraint()
    if act is None and rng.rand() < 0.5:
        d, rep, away, mx = ball.lmo(ul, xl)
    else:
        d, rep, away, mx = ball.lmo(ul, xl, act)
    info = dict(set=which, radius=alpha, u=ul, x=xl, direction=d, rep=repr(rep))
    ctx.check(changed() is None, "lmo modified its %s argument" % changed(), **info)
    ctx.check((None if act is None else dict(act)) == before, "lmo modified the active set", **info)
    ctx.check(d.shape == (n,) and not np.shares_memory(d, xl), "lmo direction has the wrong shape or aliases the point", **info)
    judge(ctx, which, alpha, ul, xl, d, info)
    ctx.check(float(mx) == 1.0, "maximum step of a Frank-Wolfe step is not 1", max_step=mx, **info)
    ctx.check(away is None, "away vertex of a Frank-Wolfe step", away=repr(away), **info)
    hash(rep)
    decode(ctx, which, alpha, rep, np.asarray(d, float) + np.asarray(xl, float), n, tol_of(alpha, xl, d, ul), info)
    ctx.count(which)
    if u.any():
        ctx.key(which, digest(ul, xl), alpha)
    ctx.sample(**info)


def tol_of(alpha, x, *others):
    single = any(a.dtype == np.float32 for a in (x,) + others)
    u = np.finfo(np.float32 if single else float).eps
    return 4 * u * (float(alpha) + np.abs(np.asarray(x, float)).max())


def judge(ctx, which, alpha, u, x, d, info, skip_x=False):
    """x + d is a point of the set that maximizes <u, .> over it."""
    tol = tol_of(alpha, x, d, u)
    u = np.asarray(u, float)
    s = np.asarray(d, float) + np.asarray(x, float)
    n = s.size
    if which == "l1":
        ctx.check(np.abs(s).sum() <= alpha + n * tol, "lmo vertex is outside of the l1 ball", vertex=s, **info)
        sup = alpha * np.abs(u).max()
    else:
        ctx.check(s.min() >= -tol and abs(s.sum() - alpha) <= n * tol, "lmo vertex is outside of the simplex", vertex=s, **info)
        sup = alpha * u.max()
    ctx.check(np.dot(u, s) >= sup - 2 * n * tol * np.abs(u).max() - n * 1e-322, "lmo vertex does not maximize the linear form over the %s set" % which,
              vertex=s, value=np.dot(u, s), best=sup, **info)


def decode(ctx, which, alpha, rep, s, n, tol, info):
    """The representation identifies the vertex."""
    e = np.zeros(n)
    if which == "l1":
        ok = isinstance(rep, tuple) and len(rep) == 2 and float(rep[1]) == int(rep[1]) and 0 <= int(rep[1]) < n and rep[0] in (-1, 0, 1)
        ctx.check(ok, "representation of the vertex is not a (sign, index) pair", **info)
        e[int(rep[1])] = alpha * float(rep[0])
    else:
        ok = float(rep) == int(rep) and 0 <= int(rep) < n
        ctx.check(ok, "representation of the vertex is not an index", **info)
        e[int(rep)] = alpha
    ctx.check(np.abs(e - s).max() <= tol, "representation of the vertex is not the vertex returned", vertex=s, decoded=e, **info)


def wl_pairwise(ctx, rng):
    n = gen.size(rng, big=0.03)
    alpha = alpha_of(rng)
    u = uvec(rng, n, ctx)
    k = 1 + rng.randint(min(2 * n, 12 if rng.rand() < 0.8 else 400))
    act = defaultdict(float)
    reps = [(s, i) for i in range(n) for s in (-1.0, 1.0)]
    w = rng.dirichlet(np.ones(k))
    if k > 1 and rng.rand() < 0.5:
        # weights of every size, as left by a long run
        w = np.where(rng.rand(k) < 0.5, w * 10.0 ** rng.uniform(-17, 0, k), w)
        w = w / w.sum()
        ctx.count("tiny weights")
    for j, r in enumerate(rng.permutation(len(reps))[:k]):
        s, i = reps[r]
        act[(np.float64(s), np.int64(i)) if rng.rand() < 0.5 else (s, i)] = [w[j], np.float64(w[j])][rng.randint(2)]
    if rng.rand() < 0.15:
        act[(0.0, int(rng.randint(n)))] = 0.25
    x = np.zeros(n)
    for (s, i), ww in act.items():
        x[i] += alpha * s * ww
    ul, xl = layout(rng, u), layout(rng, x)
    before = dict(act)
    changed = gen.freeze(ul, xl)
    d, rep, away, mx = cc.L1Ball(alpha).lmo_pairwise(ul, xl, act)
    info = dict(radius=alpha, u=ul, x=xl, direction=d, rep=repr(rep), away=repr(away), active_set=repr(before))
    ctx.check(changed() is None, "lmo_pairwise modified its %s argument" % changed(), **info)
    ctx.check(dict(act) == before and list(act) == list(before), "lmo_pairwise modified the active set", **info)
    ctx.check(away in before, "away vertex is not in the active set", **info)
    ctx.check(float(mx) == float(before[away]), "maximum pairwise step is not the weight of the away vertex", max_step=mx, **info)
    U = np.asarray(ul, float)
    corr = {r: float(r[0]) * U[int(r[1])] for r in before}
    lo = min(corr.values())
    ctx.check(corr[away] <= lo, "away vertex is not the least correlated vertex of the active set", got=corr[away], best=lo, **info)
    v = np.zeros(n)
    v[int(away[1])] = alpha * float(away[0])
    tol = tol_of(alpha, xl, d, ul)
    s = np.asarray(d, float) + v
    judge(ctx, "l1", alpha, ul, v, d, info)
    decode(ctx, "l1", alpha, rep, s, n, 2 * tol, info)
    if sum(c == lo for c in corr.values()) > 1:
        ctx.count("away vertex with ties")
    if tuple(map(float, rep)) == tuple(map(float, away)):
        ctx.count("forward equals away")
        ctx.check(np.abs(np.asarray(d, float)).max() <= 2 * tol, "direction between a vertex and itself is not zero", **info)
    ctx.count("weights", len(act))
    ctx.count("pairwise")
    if u.any():
        ctx.key("pair", digest(ul, xl), alpha)


def wl_trace(ctx, rng):
    m, n = [(1, 1), (1, 6), (6, 1), (2, 2), (3, 5), (5, 3), (8, 8), (2, 40), (30, 20), (60, 45), (25, 90)][rng.randint(11)]
    alpha = alpha_of(rng)
    c = rng.randint(6)
    if c == 0:
        U = rng.randn(m, 1).dot(rng.randn(1, n))
    elif c == 1:
        U = np.zeros((m, n))
    elif c == 2:
        U = np.eye(m, n) * rng.randn()
        U[rng.rand(m) < 0.2] = 0
    elif c == 3:
        U = np.zeros((m, n))
        U[rng.randint(m), rng.randint(n)] = rng.randn() * 10.0 ** rng.randint(-8, 8)
    else:
        U = rng.randn(m, n) * 10.0 ** rng.randint(-6, 6) * (1.0 if rng.rand() < 0.8 else 10.0 ** rng.uniform(-90, 90))
    x = rng.randn(m, n)
    x *= alpha * rng.rand() / np.linalg.svd(x, compute_uv=False).sum()
    x = x.ravel()
    u = np.ascontiguousarray(U.ravel())
    if rng.rand() < 0.3:
        u.setflags(write=False)
        x.setflags(write=False)
    changed = gen.freeze(u, x)
    d, rep, away, mx = cc.TraceBall(alpha, (m, n)).lmo(u, x, *([None] if rng.rand() < 0.5 else []))
    info = dict(radius=alpha, shape=(m, n), u=u, x=x, direction=d)
    ctx.check(changed() is None, "lmo modified its %s argument" % changed(), **info)
    ctx.check(d.shape == x.shape and np.isfinite(d).all(), "direction of the trace ball lmo", **info)
    s = (d + x).reshape(m, n)
    nuc = np.linalg.svd(s, compute_uv=False).sum()
    tol = 1e-9
    ctx.check(nuc <= alpha * (1 + tol), "lmo vertex is outside of the trace ball", norm=nuc, **info)
    best = alpha * np.linalg.svd(U, compute_uv=False)[0]
    ctx.check(np.sum(U * s) >= best * (1 - tol) , "lmo vertex does not maximize the linear form over the trace ball",
              value=np.sum(U * s), best=best, **info)
    ctx.check(float(mx) == 1.0, "maximum step of a Frank-Wolfe step is not 1", max_step=mx, **info)
    ctx.count("trace")
    if U.any():
        ctx.key("trace", digest(u, x), alpha)
    else:
        ctx.count("zero linear form")


WORKLOADS = [("vanilla", wl_vanilla, 6000, 100000), ("pairwise", wl_pairwise, 4000, 60000), ("large vanilla", gen.large(wl_vanilla), 60, 600), ("large pairwise", gen.large(wl_pairwise, (800, 1500, 5000)), 40, 400), ("trace", wl_trace, 1500, 20000)]
