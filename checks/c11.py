"""C11: proximal gradient and its accelerated variant."""
import warnings
import numpy as np
import copt as cp
from vlib import gen, prob
from vlib.core import digest, Skip

ID = "C11"
RULE = ("random smooth problem x nonsmooth term x step rule x variant, run with prox, objective and callback recorded; judged by the gradient mapping, an independent "
        "reference solution, monotonicity and the O(1/k), O(1/k^2) bounds; non-trivial: at least 3 iterations; distinct by digest of the iterates")
ASSUMPTIONS = ["tolerances above the rounding noise of the objective", "smoothness constants computed from the data",
               "gradients and proximal operators recomputed by independent implementations"]
REQUIRED = ["plain", "accelerated", "callable", "backtracking", "success", "max_iter reached", "monotone steps", "rate evaluations", "stopped by callback", "certificate traced",
            "reference comparisons", "jac callable", "jac true", "no prox", "converged", "other backtracking factors", "accepted steps", "line searches of more than 20 trials", "exhausted line searches", "runs of more than 500 iterations", "badly scaled"]


class PGRun:
    def __init__(self, ctx, rng, S, P, x0, accelerated, step, jac_mode, stop_at=None, **kw):
        self.S, self.P, self.cb, self.prox_log = S, P, [], []
        self.rec = prob.Recorder(S)
        fun, jac = self.rec.api(rng, jac_mode)
        obj = None if P.obj is None else P.obj.prox

        def prox(v, t):
            v0 = np.array(v)
            out = obj(v, t)
            self.prox_log.append((v0, float(t), np.array(out)))
            return out

        def callback(dl):
            self.cb.append((np.array(dl["x"]), len(self.prox_log)))
            if stop_at is not None and len(self.cb) == stop_at:
                return False

        x0c = x0.copy()
        self.res = cp.minimize_proximal_gradient(fun, x0, None if obj is None else prox, jac=jac, step=step, accelerated=accelerated, callback=callback,
                                                 args=() if rng.rand() < 0.7 else (3, None), **kw)
        ctx.check(x0.tobytes() == x0c.tobytes(), "minimize_proximal_gradient modified x0", mech="mutation")
        self.x = np.array(self.res.x)
        self.points = [c[0] for c in self.cb]


def gmag(S, x):
    return np.abs(S.A).T.dot(np.abs(S.A).dot(np.abs(x)) + np.abs(S.b) + 1) / S.m + S.alpha * np.abs(x)


def noise(S, x):
    """Rounding noise of the objective at x, relative to which a decrease can be seen."""
    z = np.abs(S.A).dot(np.abs(x)) + np.abs(S.b) + 1
    return prob.EPS * (S.m + S.n + 8) * float(np.mean(z * z) + S.alpha * x.dot(x))


def setup(rng, nmax=20, **kw):
    n = 1 + rng.randint(nmax)
    S = prob.Smooth(rng, n, **kw)
    if rng.rand() < 0.2 and S.kind != "log":
        S.b = S.b * 10.0 ** rng.randint(1, 6)  # large optimal value
    P = prob.Pen(rng, n, scale=S.L)
    c = rng.randint(4)
    x0 = np.zeros(n) if c == 0 else rng.randn(n) * [0.1, 1, 5][c - 1]
    if c == 3:
        x0 = P.prox(x0, 1.0)
    return S, P, np.array(x0)


def F(S, P, x):
    return S.f(x) + P.value(x)


def mapping(S, P, x, t):
    return np.linalg.norm(x - P.prox(x - t * S.grad(x), t)) / t


def wl(ctx, rng, conv=False, long=False, endless=False):
    S, P, x0 = setup(rng, **(dict(nmax=4, **(dict(scale=10.0 ** rng.uniform(6, 11)) if rng.rand() < 0.4 else {})) if endless else dict(kind="square", ridge=0.1, scale=1.0) if conv else dict(kind=["huber", "log"][rng.randint(2)], ridge=0.0) if long else dict(scale=10.0 ** rng.uniform(-11, 11)) if rng.rand() < 0.15 else {}))
    if not 0.05 < S.L < 50:
        ctx.count("badly scaled")
    acc = bool(rng.rand() < 0.5) or long
    step = "backtracking" if rng.rand() < 0.75 or conv or long else "callable"
    jac = ["true", "callable"][rng.randint(2)]
    max_iter = int([1, 2, 5, 20, 60, 150][rng.randint(6)])
    tol = float([1e-6, 1e-3, 1e-2, 0.3][rng.randint(4)] * (1 if rng.rand() < 0.5 else S.L))
    fn = step
    gam = None
    if step == "callable":
        gam = []

        def fn(dl):
            dl["x"], dl["grad_fk"]
            g = [1.0, 0.7, 0.9, 0.3][len(gam) % 4] / S.L if not const else const
            gam.append(g)
            return g

        const = [0, 1.0 / S.L, 0.5 / S.L][rng.randint(3)]
        if acc and not const:
            const = 1.0 / S.L
    kw = {}
    if conv:
        max_iter, tol = 3000, 1e-5
    elif long:  # regions of very different curvature: the step sizes vary a lot
        max_iter, tol = 300, 1e-7
        x0 = x0 * 10
        if S.kind == "huber":
            S.b = S.b * 10
    elif endless:  # more iterations than useful
        max_iter, tol = 600 + rng.randint(900), float([0.0, 1e-300, 1e-12][rng.randint(3)]) * S.L
    elif rng.rand() < 0.12:
        kw["stop_at"] = 1 + rng.randint(8)
    beta = 0.6
    if step == "backtracking" and rng.rand() < 0.4:
        beta = kw["backtracking_factor"] = [0.3, 0.5, 0.8, 0.95][rng.randint(4)]
        ctx.count("other backtracking factors")
    mib = 1000
    if step == "backtracking" and not conv and not long and not endless and rng.rand() < 0.15:
        mib = kw["max_iter_backtracking"] = int([1, 2, 3][rng.randint(3)])
    tc = bool(rng.rand() < 0.4)
    info = dict(problem=S.name, term=P.name, accelerated=acc, step=step, jac=jac, max_iter=max_iter, tol=tol, L=S.L, backtracking_factor=beta, max_iter_backtracking=mib)
    with warnings.catch_warnings(record=True) as W:
        warnings.simplefilter("always")
        R = PGRun(ctx, rng, S, P, x0, acc, fn, jac, max_iter=max_iter, tol=tol, trace_certificate=tc, **kw)
    if kw.get("max_iter_backtracking") and not all(np.abs(p).max() < 1e100 for p in R.points + [R.x]):
        ctx.count("diverged after exhausted line searches")
        return
    warned = sum("line-search" in str(w.message) for w in W)
    res, x = R.res, R.x
    stopped = kw.get("stop_at") is not None and len(R.cb) >= kw["stop_at"]
    for nm, on in (("plain", not acc), ("accelerated", acc), (step, True), ("stopped by callback", stopped), ("jac " + jac, True),
                   ("no prox", P.obj is None), ("certificate traced", tc)):
        if on:
            ctx.count(nm)
    N = noise(S, x) + noise(S, x0)
    # protocol
    ctx.check(np.isfinite(x).all() and x.shape == x0.shape, "the solution is not finite", x=x, **info)
    ctx.check(np.array_equal(R.points[0], x0), "the first iterate is not x0", first=R.points[0], x0=x0, **info)
    ctx.check(res.nit <= max_iter and len(R.points) <= max_iter + 1, "more iterations than max_iter", nit=res.nit, calls=len(R.points), **info)
    iters = R.points[1:] + ([] if stopped else [x])  # the iterates after each step
    if stopped:
        ctx.check(np.array_equal(x, R.points[-1]), "the solution is not the iterate the callback stopped at", **info)
        ctx.check(not res.success, "success although the callback stopped the solver", **info)
    elif not res.success:
        ctx.count("max_iter reached")
        ctx.check(res.nit == max_iter, "stopped early without success", nit=res.nit, **info)
        ctx.check(not res.certificate < tol, "certificate below tol without success", certificate=res.certificate, **info)
    # certificate
    if res.success:
        ctx.count("success")
        ctx.check(res.certificate < tol, "success although the certificate is above tol", certificate=res.certificate, **info)
        t = R.prox_log[-1][1] if R.prox_log else 0.3 / S.L
        if not R.prox_log and not acc:  # gradient steps: their size is that of the last move
            xl_ = R.points[-1]
            t = max(t, np.linalg.norm(x - xl_) / max(np.linalg.norm(S.grad(xl_)), 1e-300))
        tn = 5e-16 * (S.n + S.m + 8) * np.linalg.norm(gmag(S, x)) + 1e-14 * np.linalg.norm(np.abs(x) + t * gmag(S, x)) / t
        q = mapping(S, P, x, t)
        fac = 1.0 if acc and R.prox_log else 1 + t * S.L
        if np.sqrt(2 * S.L * N) > tol:
            ctx.count("tolerance below the noise of the objective")
        if not P.ball:
            tn += 1e-15 * (S.n + 8) * P.a
        if step == "backtracking":  # the line search cannot tell steps below this noise, and may shrink them until nothing moves
            tn += 10 * np.sqrt(2 * S.L * N)
        if True:
            ctx.check(q <= tol * fac * (1 + 1e-6) + tn * 4, "success is reported but the gradient mapping at x is above tol", mapping=q, certificate=res.certificate, step_used=t, **info)
            z, Fz = reference(S, P, x0, 400)
            ctx.count("reference comparisons")
            # one more step is a point of the domain with a subgradient of norm at most (1 + t L) times the mapping
            xp = P.prox(x - t * S.grad(x), t)
            ctx.check(F(S, P, xp) - Fz <= fac * (1 + t * S.L) * (tol + tn) * np.linalg.norm(xp - z) * (1 + 1e-6) + N + 1e-12 * abs(Fz),
                      "success is reported but a much better point exists", F=F(S, P, xp), better=Fz, **info)
    v = P.violation(x)
    if P.ball and iters:
        ctx.check(v <= 1e-12 * (P.a + np.abs(x0).max() + 1) * (S.n + 4), "the solution violates the constraint", violation=v, x=x, **info)
    if tc and not (acc and step == "callable"):
        tr = res.trace_certificate
        ctx.check(len(tr) == len(iters), "trace_certificate does not have one value per iteration", traced=len(tr), iterations=len(iters), **info)
        if tr:
            ctx.check(tr[-1] == res.certificate, "last traced certificate is not the certificate", traced=tr[-1], certificate=res.certificate, **info)
        if not acc:
            ctx.check(all(c >= tol for c in tr[:-1]), "went on after the certificate was below tol", traced=tr, **info)
    # every iterate is a proximal gradient step from the (extrapolated) point, of a size given to prox
    if step == "callable":
        ctx.check(len(gam) == len(iters), "the step callable is not called once per iteration", calls=len(gam), iterations=len(iters), **info)
    if step == "callable" or P.obj is not None:
        xo, y, tk = x0, x0, 1.0
        starts = [c[1] for c in R.cb] + [len(R.prox_log)]
        given_up = []
        for k, xn in enumerate(iters):
            gs = [gam[k]] if step == "callable" else sorted({r[1] for r in R.prox_log[starts[k]: starts[k + 1]]})
            gy, ok = S.grad(y), False
            for g in gs:
                e = P.prox(y - g * gy, g)
                tl = 1e-14 * (S.n + S.m + 10) * (np.abs(y) + g * gmag(S, y) + np.abs(e) + (P.a if P.ball else P.a * g)) * 4
                if P.which in ("tv", "l1ball", "simplex", "group", "l2ball"):
                    tl = tl.max() * S.n
                if np.all(np.abs(e - xn) <= tl + 1e-300):
                    ok = True
                    break
            ctx.check(ok, "the iterate is not the proximal gradient step", it=k, sizes=gs[:5], last_expected=e, got=xn, **info)
            if step == "backtracking":
                tr = [r[1] for r in R.prox_log[starts[k]: starts[k + 1]]]
                if acc:
                    ctx.check(len(tr) >= 2 and tr[-1] == tr[-2], "the certificate is not evaluated with the step size of the iteration", sizes=tr, it=k, **info)
                    tr = tr[:-1]
                ctx.check(all(abs(b - beta * a) <= 1e-15 * a for a, b in zip(tr, tr[1:])), "the line search does not multiply the step by backtracking_factor", sizes=tr, it=k, **info)
                ctx.check(len(tr) <= mib + 1, "more trials of the line search than max_iter_backtracking", trials=len(tr), it=k, **info)
                dl = xn - y
                nz = noise(S, y) + noise(S, xn) + 1e-13 * np.abs(dl).dot(gmag(S, y))
                if len(tr) > mib:
                    given_up.append(k)  # taken without being accepted, with a warning
                    ctx.count("exhausted line searches")
                ctx.check(len(tr) > mib or S.f(xn) - S.f(y) - gy.dot(dl) <= dl.dot(dl) / (2 * tr[-1]) + 4 * nz, "the step taken does not satisfy the sufficient decrease condition", step_used=tr[-1], trials=len(tr), it=k, **info)
                ctx.count("accepted steps")
                if len(tr) > 20:
                    ctx.count("line searches of more than 20 trials")
            if acc:
                tn_ = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
                y = xn + (tk - 1) / tn_ * (xn - xo)
                tk = tn_
            else:
                y = xn
            xo = xn
            ctx.count("replayed steps")
        if step == "backtracking":
            ctx.check(warned == len(given_up), "the number of warnings is not the number of line searches that exhausted their trials", warnings=warned, exhausted=given_up, **info)
    elif mib < 1000:
        given_up = [0] * warned
    else:
        given_up = []
    if given_up:
        if len(iters) > 2:
            ctx.key(digest(*R.points))
        return
    # monotone and rates
    Fs = [F(S, P, p) for p in R.points[:1] + iters]
    if not acc:
        for k in range(1 if P.ball else 0, len(Fs) - 1):
            if k == 0 and P.violation(R.points[0]) > 0:
                continue
            ctx.count("monotone steps")
            ctx.check(Fs[k + 1] <= Fs[k] + 4 * N + 1e-13 * abs(Fs[k]), "a proximal gradient step increased the objective", it=k, F=Fs[k], F_next=Fs[k + 1], **info)
    if len(iters) >= 2 and (conv or long or rng.rand() < 0.6) and (step == "backtracking" or const):
        z, Fz = reference(S, P, x0, 400)
        r2 = float(np.dot(x0 - z, x0 - z))
        gmin = min(0.6 * min(0.6, beta) / S.L, 900.0) if step == "backtracking" else const  # the estimate starts from a step of 1000
        for k in range(1, len(Fs)):
            b = r2 / (2 * gmin * k) if not acc else 2 * r2 / (gmin * (k + 1) ** 2)
            ctx.count("rate evaluations")
            ctx.check(Fs[k] - Fz <= b * (1 + 1e-9) + 4 * N * (k + 1) + 1e-12 * abs(Fz), "slower than the guaranteed rate", it=k, F=Fs[k], reference=Fz, bound=b, **info)
    if conv:
        ctx.check(bool(res.success), "a well conditioned problem is not solved", certificate=res.certificate, **info)
        ctx.count("converged")
    if len(iters) > 500:
        ctx.count("runs of more than 500 iterations")
    if len(iters) > 2:
        ctx.key(digest(*R.points))
    ctx.sample(iterations=len(iters), success=bool(res.success), **info)


def reference(S, P, x0, iters):
    return prob.fista(S.f_grad, P.prox, S.L, P.prox(x0, 1 / S.L), iters, P.value)


def wl_conv(ctx, rng):
    wl(ctx, rng, conv=True)


def wl_long(ctx, rng):
    wl(ctx, rng, long=True)


def wl_endless(ctx, rng):
    wl(ctx, rng, endless=True)


WORKLOADS = [("endless", wl_endless, 120, 1500), ("long", wl_long, 400, 6000), ("runs", wl, 6000, 80000), ("convergence", wl_conv, 400, 5000)]
