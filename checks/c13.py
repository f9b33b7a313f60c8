"""C13: primal-dual hybrid gradient."""
import numpy as np
import copt as cp
from scipy import sparse
from scipy.sparse import linalg as splinalg
from vlib import gen, prob
from vlib.core import digest, Skip
from checks.c12 import Smoothed, Identity, prox_err

ID = "C13"
RULE = ("random smooth problem x two nonsmooth terms x linear operator (in every accepted form) x step rule, run with both proximal operators, the operator, the objective and the "
        "callback recorded; the recorded calls are replayed against the primal-dual recursion and give the optimality certificate at a reported success; non-trivial: at least 4 iterations; distinct by digest of the iterates")
ASSUMPTIONS = ["user-given steps of the variant without line search satisfy sigma tau ||L||^2 <= 1 - sigma Lf / 2 where convergence is asserted",
               "the recorded proximal operators are compared with independent implementations", "the objective is finite along the iterates"]
REQUIRED = ["dense", "sparse", "LinearOperator", "duck typed", "identity", "operators returning their argument", "line search", "fixed step", "success", "max_iter reached", "stopped by callback", "iterations replayed",
            "accepted steps", "optimality certificates", "converged", "known solutions", "dual steps replayed", "large offsets", "badly scaled", "runs of more than 500 iterations"]


class Duck:
    """An object with .shape and .matvec attributes, as documented."""

    def __init__(self, M):
        self.M, self.shape, self.dtype = M, M.shape, M.dtype

    def matvec(self, x):
        return self.M.dot(x)

    def rmatvec(self, y):
        return self.M.T.dot(y)


def operator(ctx, rng, n, which=None):
    """(argument L, dense matrix)"""
    which = which or ["None", "square", "tall", "wide", "diff", "identity", "zero rows", "tv2d"][rng.randint(8)]
    if which == "None":
        ctx.count("identity")
        return None, np.eye(n), which
    if which == "square":
        M = rng.randn(n, n)
    elif which == "tall":
        M = rng.randn(n + 1 + rng.randint(n + 1), n)
    elif which == "wide":
        M = rng.randn(1 + rng.randint(n), n)
    elif which == "diff":
        M = np.diff(np.eye(n), axis=0) if n > 1 else np.ones((1, 1))
    elif which == "identity":
        M = np.eye(n)
    elif which == "tv2d":
        r = [d for d in range(1, n + 1) if n % d == 0]
        m = r[rng.randint(len(r))]
        if n == 1:
            M = np.ones((1, 1))
        else:
            from copt.tv_prox import tv2d_linear_operator
            Lop = tv2d_linear_operator(m, n // m)
            ctx.count("sparse")
            return Lop, np.asarray(Lop.toarray() if sparse.issparse(Lop) else Lop, float), which
    else:
        M = rng.randn(n + 2, n)
        M[rng.rand(n + 2) < 0.5] = 0
        if not M.any():
            M[0, 0] = 1.0
    if which == "identity" and rng.rand() < 0.5:
        # operators that give their argument back, not a copy of it
        ctx.count("operators returning their argument")
        same = lambda x: x  # noqa: E731
        if rng.rand() < 0.5:
            return splinalg.LinearOperator((n, n), matvec=same, rmatvec=same, dtype=float), M, which
        D = Duck(M)
        D.matvec = D.rmatvec = same
        return D, M, which
    M = M * 10.0 ** (rng.uniform(-1, 1) if rng.rand() < 0.7 else 0)
    how = ["dense", "csr", "csc", "coo", "lil", "LinearOperator", "duck", "csr"][rng.randint(8)]
    if how == "dense":
        ctx.count("dense")
        return (M.copy() if rng.rand() < 0.5 else np.asfortranarray(M)), M, which
    if how == "LinearOperator":
        ctx.count("LinearOperator")
        return splinalg.LinearOperator(M.shape, matvec=lambda x: M.dot(x), rmatvec=lambda y: M.T.dot(y), dtype=float), M, which
    if how == "duck":
        ctx.count("duck typed")
        return Duck(M.copy()), M, which
    ctx.count("sparse")
    return getattr(sparse, how + "_matrix")(M), M, which


def recorded(P, tag, order, rng, always=False):
    if P.obj is None:
        if not always and rng.rand() < 0.4:
            return None
        P.obj = Identity()

    def prox(v, t):
        v0 = np.array(v)
        out = P.obj.prox(v, t)
        order.append((tag, v0, float(t), np.array(out)))
        return out

    return prox


def run(ctx, rng, S, P1, P2, Larg, M, x0, kw, max_iter, tol, stop_at=None, info={}):
    order, cb = [], []
    p1, p2 = recorded(P1, 1, order, rng), recorded(P2, 2, order, rng)
    fg = Smoothed(S)

    def callback(dl):
        cb.append((np.array(dl["x"]), len(order)))
        if stop_at is not None and len(cb) == stop_at:
            return False

    x0c = x0.copy()
    chg = gen.freeze(Larg if isinstance(Larg, np.ndarray) or sparse.issparse(Larg) else None)
    res = cp.minimize_primal_dual(fg, x0, p1, p2, L=Larg, tol=tol, max_iter=max_iter, callback=callback, **kw)
    ctx.check(x0.tobytes() == x0c.tobytes() and chg() is None, "minimize_primal_dual modified its inputs", mech="mutation", **info)
    return res, order, cb, p1, p2


def wl(ctx, rng, conv=False, long=False):
    n = 1 + rng.randint(4 if long else 10)
    S = prob.Smooth(rng, n, **(dict(kind="square", ridge=0.5, scale=1.0) if conv else dict(scale=10.0 ** rng.uniform(-4, 4)) if rng.rand() < 0.2 else {}))
    if not 0.05 < S.L < 50:
        ctx.count("badly scaled")
    if rng.rand() < 0.25 and S.kind != "log":
        S.b = S.b * 10.0 ** rng.randint(1, 4)
        ctx.count("large offsets")
    Larg, M, lk = operator(ctx, rng, n)
    if conv and Larg is not None:
        # full row rank and well conditioned: the dual solution is determined
        m = 1 + rng.randint(n)
        U, V = np.linalg.qr(rng.randn(m, m))[0], np.linalg.qr(rng.randn(n, n))[0]
        M = (U * rng.uniform(1, 3, m) * 10.0 ** rng.uniform(-0.5, 0.3)).dot(V[:m])
        Larg = M.copy() if rng.rand() < 0.5 else sparse.csr_matrix(M)
    m = M.shape[0]
    kinds = ["none", "l1", "l1", "group", "l2ball", "linfball", "l1ball", "simplex", "tv"]
    k1, k2 = kinds[rng.randint(9)], kinds[rng.randint(9)]
    balls = ("l2ball", "linfball", "l1ball", "simplex")
    if k2 == "simplex" or (conv and k1 in balls and k2 in balls):
        k2 = kinds[[0, 1, 3, 8][rng.randint(4)]]  # the problem may be infeasible otherwise
    nL = np.linalg.norm(M, 2)
    P1, P2 = prob.Pen(rng, n, k1, scale=S.L), prob.Pen(rng, m, k2, scale=S.L / max(nL, 1e-3))
    x0 = rng.randn(n) * [0, 0.1, 1, 5][rng.randint(4)]
    mode = ["ls", "ls", "ls steps", "fixed", "fixed 2"][rng.randint(5)]
    if conv and P2.ball:
        mode = "ls"
    kw = {}
    if mode == "ls steps":
        kw = dict(step_size=10.0 ** rng.uniform(-1, 1))
        if rng.rand() < 0.5:
            kw["step_size2"] = kw["step_size"] * 10.0 ** rng.uniform(-1, 1)
    elif mode.startswith("fixed"):
        sig = 0.9 / S.L * [1, 0.3][rng.randint(2)]
        if mode == "fixed":
            sig = min(sig, np.sqrt(2) * 0.7 / max(nL, 1e-9))
            kw = dict(step_size=sig, line_search=False)
        else:
            kw = dict(step_size=sig, step_size2=0.5 / (sig * max(nL, 1e-3) ** 2), line_search=False)
    max_iter = int([1, 2, 10, 60, 210][rng.randint(5)])
    tol = float([1e-8, 1e-5, 1e-2, 1.0][rng.randint(4)])
    stop_at = None
    if conv:
        max_iter, tol = 20000, [1e-4, 1e-6][rng.randint(2)] * max(1, np.abs(S.b).max() * 1e-2)
    elif long:
        max_iter, tol = 600 + rng.randint(1200), [0.0, 1e-300, 1e-14][rng.randint(3)]
    elif rng.rand() < 0.12:
        stop_at = 1 + rng.randint(6)
    info = dict(problem=S.name, g=P1.name, h=P2.name, operator=lk, shape=list(M.shape), norm_L=nL, mode=mode, max_iter=max_iter, tol=tol, L=S.L, options=kw)
    res, order, cb, p1, p2 = run(ctx, rng, S, P1, P2, Larg, M, x0, kw, max_iter, tol, stop_at, info)
    x = np.array(res.x)
    ctx.count("line search" if mode.startswith("ls") else "fixed step")
    ctx.check(x.shape == (n,) and np.isfinite(x).all(), "the solution is not finite", x=x, **info)
    ctx.check(len(cb) <= max_iter and res.nit < max_iter, "more iterations than max_iter", nit=res.nit, calls=len(cb), **info)
    for P, tag in ((P1, 1), (P2, 2)):
        for _, v, t, out in [o for o in order if o[0] == tag][-2:]:
            e, tl = prox_err(P, v, t, out)
            ctx.check(e <= tl, "a recorded proximal call is wrong", error=e, **info)
    stopped = stop_at is not None and len(cb) >= stop_at
    if stopped:
        ctx.count("stopped by callback")
        ctx.check(not res.success, "success although the callback stopped the solver", **info)
        ctx.check(len(cb) == stop_at, "the solver went on after the callback asked to stop", **info)
        ctx.check(np.array_equal(cb[-1][0], x), "the solution is not the iterate the callback saw last", **info)
    elif not res.success:
        ctx.count("max_iter reached")
        ctx.check(len(cb) == max_iter and res.nit == max_iter - 1, "stopped early without success", calls=len(cb), nit=res.nit, **info)
        ctx.check(np.array_equal(cb[-1][0], x), "the solution is not the last iterate", **info)
    if P1.ball:
        ctx.check(P1.violation(x) <= 1e-12 * (n + 4) * (P1.a + np.abs(x0).max()), "the solution is not in the domain of g", violation=P1.violation(x), **info)
    if p1 is not None and p2 is not None:
        replay(ctx, S, P1, P2, M, order, cb, x0, x, kw, mode, tol, res, info)
    if res.success:
        ctx.count("success")
        ctx.check(res.certificate < tol, "success although the certificate is above tol", certificate=res.certificate, **info)
    if conv:
        ctx.check(bool(res.success), "a well conditioned problem is not solved", certificate=res.certificate, **info)
        ctx.count("converged")
    if len(cb) > 500:
        ctx.count("runs of more than 500 iterations")
    if len(cb) > 3:
        ctx.key(digest(*[c[0] for c in cb[:5]], x))
    ctx.sample(iterations=len(cb), success=bool(res.success), **info)


def replay(ctx, S, P1, P2, M, order, cb, x0, xfin, kw, mode, tol, res, info):
    """The recorded proximal calls against the recursion
         y+ = prox_{tau h*}(y + tau L x),   x+ = prox_{sigma g}(x - sigma (L^T (y+ + theta (y+ - y)) + grad f(x)))
    with the steps the calls were made with; and the optimality certificate of the last iteration."""
    eps = 2.3e-16
    sig0 = kw.get("step_size", 1.0)
    ratio = kw["step_size2"] / sig0 if "step_size2" in kw else 0.5  # tau / sigma as configured
    ls = mode.startswith("ls")
    x, y = x0.astype(float), M.dot(x0)
    dy = eps * 8 * (np.abs(M).dot(np.abs(x)))  # accumulated uncertainty on y
    k, bounds = 0, [c[1] for c in cb] + ([len(order)] if not cb or cb[-1][1] < len(order) else [])
    start, prev_theta = 0, 1.0
    for it, end in enumerate(bounds):
        ev = order[start:end]
        start = end
        if not ev:
            ctx.fail("an iteration without any proximal call", it=it, **info)
        ctx.check(ev[0][0] == 2 and len(ev) >= 2 and all(e[0] == 1 for e in ev[1:]), "the proximal operators are not called in the order of the method", it=it, tags=[e[0] for e in ev][:6], **info)
        _, v2, t2, z = ev[0]
        tau = 1.0 / t2
        if not ls:
            t_exp = kw.get("step_size2", 0.5 * sig0)
            ctx.check(abs(tau - t_exp) <= 1e-12 * t_exp, "the dual step is not the one requested", it=it, tau=tau, requested=t_exp, **info)
        Lx = M.dot(x)
        e2 = (y + tau * Lx) / tau
        tol2 = 32 * M.shape[1] * eps * (np.abs(y) / tau + np.abs(M).dot(np.abs(x))) + dy / tau + 1e-280
        ctx.check(np.all(np.abs(v2 - e2) <= tol2), "the dual step is not taken from y + tau L x", it=it, got=v2, expected=e2, tau=tau, **info)
        ctx.count("dual steps replayed")
        yn = (v2 - z) * tau
        dyn = 8 * eps * tau * (np.abs(v2) + np.abs(z))
        _, v1, sig, xn = ev[-1]
        theta = 1.0
        if not ls:
            ctx.check(abs(sig - sig0) <= 1e-12 * sig0, "the primal step is not the one requested", it=it, sigma=sig, **info)
        g = S.grad(x)
        for _, v1, sg, xt in ev[1:]:
            # theta is the ratio of the new dual step to the previous one; sigma fixes it
            theta = (sg / ratio) / tau if ls else 1.0
            yb = yn + theta * (yn - y)
            e1 = x - sg * (M.T.dot(yb) + g)
            gm = np.abs(S.A).T.dot(np.abs(S.A).dot(np.abs(x)) + np.abs(S.b) + 1) / S.m
            ymag = (1 + 2 * theta) * (np.abs(yn) + np.abs(y) + tau * (np.abs(v2) + np.abs(z)))
            tol1 = 64 * (S.n + S.m + len(y)) * eps * (np.abs(x) + sg * (np.abs(M).T.dot(ymag) + gm + S.alpha * np.abs(x))) + sg * np.abs(M).T.dot((1 + theta) * dyn + theta * dy) + 1e-280
            bad = np.abs(v1 - e1) > tol1
            if ls and prev_theta is not None:
                ctx.check(theta <= np.sqrt(1 + prev_theta) * (1 + 1e-9), "the steps grow faster than the method allows", it=it, theta=theta, previous=prev_theta, **info)
            ctx.check(not bad.any(), "the primal step does not follow the primal-dual recursion", it=it, got=v1, expected=e1, sigma=sg, theta=theta, **info)
        xc = cb[it][0] if it < len(cb) else xfin
        ctx.check(np.array_equal(xc, ev[-1][3]), "the iterate is not the last proximal point", it=it, **info)
        ctx.count("iterations replayed")
        if ls:
            # Malitsky-Pock: sigma tau+ ||L dx||^2 + 2 sigma (f(x+) - f(x) - <grad f(x), dx>) <= delta ||dx||^2, delta < 1
            d = xn - x
            nd = np.linalg.norm(d)
            if nd > 1e-9:
                tn = theta * tau
                dev = S.f(xn) - S.f(x) - g.dot(d)
                zz = np.abs(S.A).dot(np.abs(x) + np.abs(xn)) + np.abs(S.b) + 1
                fe = 1e-15 * (S.m + S.n) * (float(np.mean(zz * zz)) + S.alpha * float((np.abs(x) + np.abs(xn)).dot(np.abs(x) + np.abs(xn)))) + 1e-15
                lhs = sig * tn * np.linalg.norm(M.dot(d)) ** 2 + 2 * sig * dev
                ctx.count("accepted steps")
                ctx.check(lhs <= 0.99 * nd ** 2 + 2 * sig * fe + 1e-9 * nd ** 2, "the line search accepted steps that do not satisfy its condition", it=it, sigma=sig, tau=tn, lhs=lhs, rhs=nd ** 2, **info)
                if it > 0 and 2 * sig * fe < 1e-3 * nd ** 2:
                    # not needlessly small: one that satisfies it for sure is not divided further
                    nL = info["norm_L"]
                    sure = 0.0
                    a, b = nL ** 2 / ratio, S.L  # lhs <= (sigma^2 a + sigma b) |dx|^2  with tau = sigma / ratio
                    if a > 0:
                        sure = (-b + np.sqrt(b * b + 4 * a * 0.5)) / (2 * a)
                    elif b > 0:
                        sure = 0.5 / b
                    ctx.check(sig >= min(0.85 * sure, prev_sig * 0.99), "the steps are shorter than the line search allows", it=it, sigma=sig, sure=sure, previous=prev_sig, **info)
        prev_sig, prev_theta = sig, theta
        last = (x, xn, y, yn, z, sig, tau, theta, v1, dyn)
        x, y, dy = xn, yn, dyn
    if res.success and bounds:
        xo, xn, yo, yn, z, sig, tau, theta, v1, dyn = last
        p = (v1 - xn) / sig
        r1 = np.linalg.norm(p + M.T.dot(yn) + S.grad(xn))
        r2 = np.linalg.norm(M.dot(xn) - z)
        nL = info["norm_L"]
        noise = 1e-14 * (S.n + S.m) * (np.linalg.norm(v1) / sig + nL * np.linalg.norm(yn) + np.linalg.norm(np.abs(S.A).T.dot(np.abs(S.b) + np.abs(S.A).dot(np.abs(xn)))) / S.m) + nL * np.linalg.norm(dyn) * 2
        ctx.count("optimality certificates")
        ctx.check(r1 <= tol * (1 / sig + S.L + nL * max(theta, 1)) * 1.01 + noise, "success is reported but the solution is not stationary", residual=r1, tolerance=tol, sigma=sig, tau=tau, **info)
        ctx.check(r2 <= tol * (1 / tau + nL) * 1.01 + noise, "success is reported but L x is not where the subgradient of h was taken", residual=r2, tolerance=tol, sigma=sig, tau=tau, **info)


def wl_conv(ctx, rng):
    wl(ctx, rng, conv=True)


def wl_known(ctx, rng):
    """min 1/2 |x - w|^2 + a |L x|_1 with closed form or dynamic programming solutions."""
    n = 2 + rng.randint(8)
    w = rng.randn(n) * [1, 10][rng.randint(2)]
    a = 10.0 ** rng.uniform(-2, 0.5)
    which = rng.randint(4)
    P2 = None
    if which == 0:
        c = 10.0 ** rng.uniform(-1, 1) * [-1, 1][rng.randint(2)]
        M = c * np.eye(n)
        sol = np.sign(w) * np.maximum(np.abs(w) - a * abs(c), 0)
    elif which == 1:
        M = np.diff(np.eye(n), axis=0)
        sol = prob.tv1d_prox(w, a)
    elif which == 2:
        Q = np.linalg.qr(rng.randn(n, n))[0]
        M = Q
        u = Q.dot(w)
        sol = Q.T.dot(np.sign(u) * np.maximum(np.abs(u) - a, 0))
    else:
        d = rng.uniform(0.3, 3, n) * rng.choice([-1, 1], n)
        M = np.diag(d)
        sol = np.sign(w) * np.maximum(np.abs(w) - a * np.abs(d), 0)
    import copt.penalty
    Larg = [M, sparse.csr_matrix(M), sparse.csc_matrix(M), splinalg.aslinearoperator(M)][rng.randint(4)]
    kw = {} if rng.rand() < 0.6 else dict(line_search=False, step_size=0.6 / max(1, np.linalg.norm(M, 2)))
    calls = []
    f = lambda x, return_gradient=True: (0.5 * np.sum((x - w) ** 2), x - w)
    res = cp.minimize_primal_dual(f, rng.randn(n), None, copt.penalty.L1Norm(a).prox, L=Larg, tol=1e-10, max_iter=12000, **kw)
    ctx.count("known solutions")
    err = np.abs(res.x - sol).max()
    ctx.check(err <= 1e-6 * (1 + np.abs(w).max()), "not the solution of a problem with a known solution", which=which, w=w, a=a, got=res.x, expected=sol, options=kw, success=bool(res.success))
    ctx.key(which, digest(w), a)


def wl_long(ctx, rng):
    wl(ctx, rng, long=True)


WORKLOADS = [("long", wl_long, 100, 1200), ("runs", wl, 5000, 80000), ("convergence", wl_conv, 120, 2500, {"heavy": True}), ("known", wl_known, 120, 2000)]
