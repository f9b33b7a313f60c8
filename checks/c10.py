"""C10: pairwise Frank-Wolfe keeps a convex decomposition of its iterate."""
from collections import defaultdict

import numpy as np
import copt as cp
import copt.constraint as cc
from vlib import gen, prob
from vlib.core import digest, Skip
from checks.c08 import FWRun, check_path, check_rule, F32
from checks.c09 import gap_of, gap_tol, solve, check_linesearch

ID = "C10"
RULE = ("random problem over a polytope (l1 ball with its pairwise oracle, simplex and random polytopes with a user written one), pairwise variant; the active set "
        "seen by the oracle at every iteration must decode to the iterate; non-trivial: at least one drop step or 4 steps; distinct by digest of the iterates")
ASSUMPTIONS = ["the starting point is the vertex x0_rep", "step sizes at most the maximum step (the sublinear rule does not know it: there the documented error is accepted)"]
REQUIRED = ["active sets", "drop steps", "l1", "simplex", "polytope", "backtracking", "DR", "callable", "sublinear", "success", "vertex re-entered",
            "too large step rejected", "active sets of one vertex", "converged", "runs of more than 500 steps", "badly scaled"]


class Poly:
    """Convex hull of the rows of V, with user written pairwise oracle."""

    def __init__(self, rng, n, which):
        self.which = which
        if which == "simplex":
            self.V = np.eye(n) * [1.0, 0.5, 3.0][rng.randint(3)]
        else:
            k = 2 + rng.randint(3 * n + 2)
            self.V = np.round(rng.randn(k, n), 2) if rng.rand() < 0.5 else (rng.rand(k, n) < 0.5) * 1.0
        self.radius = float(np.abs(self.V).max() or 1.0)
        self.name = which
        q = self.V @ self.V.T
        self.diam = float(np.sqrt(max((np.diag(q)[:, None] + np.diag(q)[None] - 2 * q).max(), 0)))

    def decode(self, rep):
        return self.V[rep]

    def lmo(self, u, x, active_set):
        s = int(np.argmax(self.V.dot(u)))
        v, w = min(active_set.items(), key=lambda it: self.V[it[0]].dot(u))
        return self.V[s] - self.V[v], s, v, w

    def support(self, u):
        return float(self.V.dot(u).max())

    def gap(self, x, g):
        return self.support(-g) + g.dot(x)

    def violation(self, x):
        return -1.0  # implied by the decomposition


class L1:
    def __init__(self, rng, n):
        self.which, self.radius = "l1", float([1.0, 0.3, 2.0, 10.0 ** rng.uniform(-1, 1)][rng.randint(4)])
        self.obj = cc.L1Ball(self.radius)
        self.n, self.name, self.diam = n, "l1(%g)" % self.radius, 2 * self.radius
        self.lmo = self.obj.lmo_pairwise

    def decode(self, rep):
        e = np.zeros(self.n)
        e[int(rep[1])] = self.radius * float(rep[0])
        return e

    def support(self, u):
        return self.radius * np.abs(u).max()

    def gap(self, x, g):
        return self.support(-g) + g.dot(x)

    def violation(self, x):
        return np.abs(x).sum() - self.radius


def check_active(ctx, P, act, x, t, info):
    w = np.array([float(v) for v in act.values()])
    ctx.count("active sets")
    ctx.check(len(w) > 0, "the active set is empty", it=t, **info)
    ctx.check(np.all(w > 0), "the active set keeps a vertex of weight zero or less", it=t, weights=w, **info)
    ctx.check(abs(w.sum() - 1) <= 4e-16 * (t + 4) * 4, "weights of the active set do not sum to one", it=t, weights=w, total=w.sum(), **info)
    y = sum(wk * P.decode(r) for r, wk in act.items())
    ctx.check(np.all(np.abs(y - x) <= 4e-16 * (t + len(w) + 4) * 8 * P.radius), "the active set does not decode to the iterate", it=t, decoded=y, x=x,
              active_set=repr(dict(act))[:600], **info)
    if len(w) == 1:
        ctx.count("active sets of one vertex")


def setup(rng, nmax=12):
    n = 1 + rng.randint(nmax)
    kind = ["l1", "l1", "simplex", "polytope"][rng.randint(4)]
    P = L1(rng, n) if kind == "l1" else Poly(rng, n, kind)
    if kind == "l1":
        rep = [(1.0, rng.randint(n)), (-1.0, rng.randint(n)), (1, int(rng.randint(n)))][rng.randint(3)]
    else:
        rep = int(rng.randint(len(P.V)))
    return n, kind, P, rep, P.decode(rep).astype(float).copy()


def wl(ctx, rng, long=False):
    n, kind, P, rep, x0 = setup(rng, 5 if long else 12)
    badly = rng.rand() < 0.15
    S = prob.Smooth(rng, n, scale=10.0 ** rng.uniform(-8, 6) if badly else None)
    if badly:
        ctx.count("badly scaled")
    step = ["backtracking", "backtracking", "DR", "callable", "sublinear"][rng.randint(5)]
    lip = S.L * [1, 0.5, 3][rng.randint(3)] if step == "DR" else None
    fn = step
    if step == "callable":
        c = rng.rand()

        def fn(dl):
            g = [c * dl["max_step_size"], dl["max_step_size"], 0.5 * dl["max_step_size"], 0.0][len(fn.log) * 7 % 4]
            fn.log.append(g)
            return g

        fn.log = []
    max_iter = 1 + rng.randint(80)
    tol = [0.0, 1e-10, 1e-4, 1e-1][rng.randint(4)] * S.L * P.radius ** 2
    if long:
        max_iter, tol = 600 + rng.randint(900), [0.0, 1e-15 * tol][rng.randint(2)]
    info = dict(problem=S.name, set=P.name, step=step, jac="true", lipschitz=lip, x0_rep=repr(rep))
    ctx.count(kind)
    ctx.count(step)
    try:
        R = FWRun(ctx, rng, S, P, x0, P.lmo, fn, "true", variant="pairwise", x0_rep=rep, lipschitz=lip, max_iter=max_iter, tol=tol,
                  **({"stop_at": 1 + rng.randint(5)} if rng.rand() < 0.1 and not long else {}))
    except ValueError as e:
        ctx.check(step == "sublinear" and "too large" in str(e), "unexpected ValueError: %s" % e, **info)
        ctx.count("too large step rejected")
        return
    check_path(ctx, R, step, info=info)
    check_rule(ctx, R, step, fn, lip, info)
    if step == "backtracking":
        check_linesearch(ctx, R, lip, info)
    prev = None
    seen = set()
    for t, r in enumerate(R.lmo_log):
        check_active(ctx, P, r["act"], r["x"], t, info)
        if prev is not None:
            new = set(r["act"])
            if len(new) < len(prev):
                ctx.count("drop steps")
            elif prev - new:
                ctx.count("drop steps")
            for v in new - prev:
                if v in seen:
                    ctx.count("vertex re-entered")
            seen |= prev
            gone = prev - new
            ctx.check(len(new - prev) <= 1 and len(gone) <= 1, "a pairwise step moves weight between more than two vertices", it=t, **info)
        prev = set(r["act"])
        ctx.check(abs(r["max"] - float(r["act"][r["away"]])) == 0, "maximum step is not the weight of the away vertex", it=t, **info)
    check_active(ctx, P, R.res.active_set, R.x, len(R.lmo_log), info)
    if R.res.success:
        ctx.count("success")
    if len(R.points) > 500:
        ctx.count("runs of more than 500 steps")
    if len(R.points) > 3:
        ctx.key(digest(*R.points))
    ctx.sample(queries=len(R.points), success=bool(R.res.success), **info)


def wl_conv(ctx, rng):
    """Linear convergence over polytopes: strongly convex problems are solved."""
    n, kind, P, rep, x0 = setup(rng)
    S = prob.Smooth(rng, n, kind="square", scale=1.0, ridge=0.2 + rng.rand())
    ref_gap = S.L * P.diam ** 2
    if ref_gap == 0:
        raise Skip
    tol = ref_gap * 10.0 ** rng.uniform(-3, -2)
    if tol < 1e-4:
        raise Skip  # the line search has an absolute slack of 1e-7
    step, lip = ["backtracking", "DR"][rng.randint(2)], S.L
    info = dict(problem=S.name, set=P.name, step=step, jac="true", tol=tol, x0_rep=repr(rep))
    R = FWRun(ctx, rng, S, P, x0, P.lmo, step, "true", variant="pairwise", x0_rep=rep, lipschitz=lip, max_iter=3000, tol=tol)
    # the stopping rule of this variant is the gap between the two vertices, which bounds the Frank-Wolfe gap
    g = gap_of(S, P, R.x)
    ctx.check(bool(R.res.success), "pairwise Frank-Wolfe does not converge on a well conditioned problem", gap=g, queries=len(R.points), **info)
    ctx.check(g <= tol + gap_tol(S, P, R.x) * 2, "success is reported but the Frank-Wolfe gap is above tol", gap=g, **info)
    ctx.count("converged")
    ctx.key("conv", digest(*R.points[-5:]), len(R.points))


def wl_long(ctx, rng):
    wl(ctx, rng, long=True)


WORKLOADS = [("long", wl_long, 80, 1200), ("pairwise", wl, 3000, 50000), ("convergence", wl_conv, 300, 5000)]
