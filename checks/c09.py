"""C09: Frank-Wolfe makes the progress it promises, and its certificate is true."""
import numpy as np
from vlib import gen, prob
from vlib.core import digest, Skip
from checks.c08 import FWRun, make, check_path, pick, F32

ID = "C09"
RULE = ("random convex problem x set x step rule, recorded at the lmo/objective/callback boundary; descent, lower bounds on the step, convergence "
        "rate and stopping rule judged with independently computed values; non-trivial: at least 3 steps; distinct by digest of the iterates")
ASSUMPTIONS = ["smoothness constants and diameters computed from the problem data", "the reference solution is a feasible point found by an independent method (an upper bound of the minimum)",
               "the line search accepts decreases up to the single precision epsilon (absolute), as the code documents"]
REQUIRED = ["steps", "success", "stopped at max_iter", "rate evaluations", "backtracking", "DR", "sublinear", "zero direction start",
            "lipschitz estimated", "decrease evaluations", "line search trials", "rejected trials", "estimates forgotten", "converged runs", "runs of more than 500 steps", "badly scaled"]


def gap_of(S, D, x):
    return D.gap(x, S.grad(x))


def gap_tol(S, D, x):
    """rounding error of a Frank-Wolfe gap"""
    g = S.grad(x)
    gm = np.abs(S.A).T.dot(np.abs(S.A).dot(np.abs(x)) + np.abs(S.b) + 1) / S.m + S.alpha * np.abs(x)
    return 1e-14 * (S.n + S.m + 10) * float(gm.max() if D.which != "box" else gm.sum()) * (D.radius * 2 + np.abs(x).sum()) + 1e-13 * np.abs(g).sum() * D.radius


def check_linesearch(ctx, R, lip, info):
    """Every trial of the line search: the estimates grow while they are rejected, rejected trials violate the decrease
    condition and accepted ones satisfy it, the next search starts from the accepted estimate or at most 10% below it.

    The estimate is only visible in the steps that are shorter than the maximal one, an interval [lo, hi] is
    tracked otherwise. Returns the last upper bound of the estimate.
    """
    log = R.rec.log
    vals = [(p, v) for k, p, v in log if k in ("fg", "f")]
    idx = np.cumsum([0] + [k in ("fg", "f") for k, p, v in log])
    f_t = vals[0][1]
    lo, hi = (0.0, np.inf) if lip is None else (lip * (1 - 1e-9), lip * (1 + 1e-9))
    for t, r in enumerate(R.lmo_log):
        end = idx[R.lmo_log[t + 1]["seq"]] if t + 1 < len(R.lmo_log) else len(vals)
        tr = vals[idx[r["seq"]]:end]
        if t == 0 and lip is None:
            tr = tr[1:]  # the point the first estimate is made of
        if not tr:
            break
        d, x = r["d"], r["x"]
        dd, cert = float(d.dot(d)), float(r["u"].dot(d))
        if not (dd > 0 and cert > 1e-9 * np.abs(r["u"]).dot(np.abs(d))):
            return hi
        rel = 1e-11 * (R.S.n + 10) * np.abs(r["u"]).dot(np.abs(d)) / cert
        gt = 1e-14 * 8 * (np.abs(x).max() + np.abs(d).max()) / np.sqrt(dd)
        last_y = np.inf
        if t:
            lo *= 0.9 * (1 - 1e-9)
        for j, (p, v) in enumerate(tr):
            y = float((p - x).dot(d) / dd)
            e = 2e-7 + rel + 4 * gt / max(y, 1e-300)  # an estimate may be a single precision number
            if e > 1e-3:
                return hi
            top = y >= r["max"] * (1 - 1e-9) - gt
            ctx.count("line search trials")
            ctx.check(y <= last_y * (1 + e), "the steps tried by the line search grow", it=t, trial=j, tried=y, before=last_y, **info)
            last_y = y
            L = cert / (dd * y)  # the estimate, or an upper bound of it
            if j == 0:
                ctx.check(top or L <= hi * (1 + 2 * e), "the first trial of the line search is shorter than the estimate accepted before allows", it=t, estimate=L, before=hi, **info)
                ctx.check(L >= lo * (1 - 2 * e), "the first trial of the line search is longer than 90% of the estimate accepted before allow", it=t, estimate=L, before=lo / 0.9, **info)
            fe = e * y * cert + 1e-14 * (R.S.m + R.S.n) * (1 + abs(v) + abs(f_t))
            # the estimates that accept this point when the step is limited
            need = 2 * (v - f_t - F32 + y * cert) / (y * y * dd)
            ne = 2 * fe / (y * y * dd)
            accepted = j == len(tr) - 1
            if not accepted:
                ctx.count("rejected trials")
                if top:
                    ctx.check(need > lo * (1 - e) - ne or not np.isfinite(v), "the line search rejects a step with sufficient decrease", it=t, trial=j, tried=y, decrease=f_t - v, need=need, estimate=lo, **info)
                    lo, hi = L * (1 - e), max(4 * hi, 2 * (need + ne)) * (1 + e)  # the next one is a shorter step
                else:
                    ctx.check(v - f_t > -0.5 * y * cert + F32 - fe or not np.isfinite(v), "the line search rejects a step with sufficient decrease", it=t, trial=j, tried=y, decrease=f_t - v, needed=0.5 * y * cert, **info)
            elif len(tr) < 50:
                ctx.check(v - f_t <= -0.5 * y * cert + F32 + fe, "the line search accepts a step without sufficient decrease", it=t, trial=j, tried=y, decrease=f_t - v, needed=0.5 * y * cert, maximum=r["max"], **info)
                if top:
                    ctx.count("accepted at the maximum")
                    lo, hi = max(lo, need - ne), min(L * (1 + e), max(hi, 2 * (need + ne)) * (1 + e))
                else:
                    lo, hi = L * (1 - e), L * (1 + e)
            else:
                return hi
        f_t = tr[-1][1]
    return hi


def wl(ctx, rng, convergence=False, long=False):
    badly = rng.rand() < 0.15
    S, D, x0 = make(ctx, rng, which=None, nmax=5 if long else 20, scale=10.0 ** rng.uniform(-6, 6) if badly else None)
    if badly:
        ctx.count("badly scaled")
    step = ["backtracking", "backtracking", "DR", "sublinear"][rng.randint(4)]
    lip = None
    if step == "DR" or rng.rand() < 0.6:
        lip = S.L * ([1, 1, 2][rng.randint(3)] if step == "DR" else 10.0 ** rng.uniform(-3, 1.5))
    if rng.rand() < 0.05 and D.which != "box":
        # start at the solution
        x0 = solve(S, D, 3000)[0]
        if D.violation(x0) > 0:
            x0 = D.project(x0)
        ctx.count("zero direction start")
    max_iter = 1 + rng.randint(150)
    tol = [0.0, 1e-12, 1e-8, 1e-4, 1e-2, 1e-1, 1.0][rng.randint(7)] * S.L * D.radius ** 2
    if long:
        max_iter, tol = 600 + rng.randint(900), [0.0, 1e-15 * tol][rng.randint(2)]
    info = dict(problem=S.name, set=D.name, step=step, lipschitz=lip, jac="true", max_iter=max_iter, tol=tol, L=S.L)
    if convergence:
        step, lip, max_iter = "backtracking", None, 4000
        S = prob.Smooth(rng, S.n, kind=["square", "log"][rng.randint(2)])
        tol = 2e-2 * S.L * D.diam ** 2
        info.update(problem=S.name, step=step, lipschitz=lip, max_iter=max_iter, tol=tol, L=S.L)
    R = FWRun(ctx, rng, S, D, x0, D.obj.lmo, step, "true", lipschitz=lip, max_iter=max_iter, tol=tol)
    gam = check_path(ctx, R, step, info=info)
    ctx.count(step)
    if lip is None:
        ctx.count("lipschitz estimated")
    res = R.res
    T = len(R.points)
    ctx.check(T <= max_iter, "more iterations than max_iter", queries=T, **info)
    # stopping rule and certificate
    for t, r in enumerate(R.lmo_log):
        g = gap_of(S, D, r["x"])
        r["gap"] = g
        if t < T - 1:
            ctx.check(g > tol - gap_tol(S, D, r["x"]) - 1e-9 * abs(g) * (D.which == "trace"), "went on after the Frank-Wolfe gap was below tol", it=t, gap=g, **info)
    gx, et = gap_of(S, D, R.x), gap_tol(S, D, R.x)
    slack = et + 1e-8 * abs(gx) * (D.which == "trace")
    success = bool(res.success)
    if success:
        ctx.count("success")
        ctx.check(gx <= tol + slack, "success is reported but the Frank-Wolfe gap at x is above tol", gap=gx, **info)
        ctx.check(abs(res.certificate - gx) <= slack * 2, "certificate is not the Frank-Wolfe gap at x", certificate=res.certificate, gap=gx, **info)
        f_ref = solve(S, D, 300)[1]
        ctx.check(S.f(R.x) - f_ref <= res.certificate + slack * 2 + 1e-13 * (1 + abs(f_ref)), "a feasible point is better than the certificate allows", f=S.f(R.x), better=f_ref, certificate=res.certificate, **info)
    else:
        ctx.count("stopped at max_iter")
        ctx.check(T == max_iter, "stopped before max_iter without reaching tol", queries=T, gap=gx, **info)
        ctx.check(res.certificate > tol, "no success although the certificate is below tol", certificate=res.certificate, **info)
        ctx.check(abs(res.certificate - R.lmo_log[-1]["gap"]) <= gap_tol(S, D, R.lmo_log[-1]["x"]) * 2 + 1e-8 * res.certificate * (D.which == "trace"),
                  "certificate is not the Frank-Wolfe gap of the last linear problem", certificate=res.certificate, gap=R.lmo_log[-1]["gap"], **info)
    if convergence:
        ctx.check(success, "a well conditioned problem is not solved to a loose tolerance", gap=gx, **info)
        ctx.count("converged runs")
    if step == "backtracking":
        check_linesearch(ctx, R, lip, info)
    # progress of each step
    seq = R.points + [R.x]
    fs = [S.f(p) for p in seq]
    for t, r in enumerate(R.lmo_log):
        if success and t == T - 1:
            break
        fe = 1e-13 * (S.m + S.n) * (1 + abs(fs[t]) + abs(fs[t + 1]))
        gap, dd, y = float(r["u"].dot(r["d"])), float(r["d"].dot(r["d"])), r["gamma"]
        if step == "backtracking":
            ctx.count("decrease evaluations")
            ctx.check(fs[t + 1] <= fs[t] - 0.5 * y * gap * (1 - 1e-9) + 1.05 * F32 + fe, "the line search accepted an insufficient decrease", it=t, gamma=y,
                      gap=gap, f=fs[t], f_next=fs[t + 1], **info)
            Lmax = max(2.0 * S.L, lip or 0) * (1 + 1e-6)
            if fe < 0.3 * F32:
                ctx.check(y >= min(r["max"], gap / (dd * Lmax)) * (1 - 1e-6) - r["gtol"], "the step is shorter than the line search allows", it=t, gamma=y,
                          lower=min(r["max"], gap / (dd * Lmax)), **info)
        elif step == "DR" and lip >= S.L:
            ctx.count("decrease evaluations")
            ctx.check(fs[t + 1] <= fs[t] - 0.5 * y * gap * (1 - 1e-9) + fe, "a Demyanov-Rubinov step increased the objective", it=t, f=fs[t], f_next=fs[t + 1], **info)
    # rate: f(x_t) - f(ref) <= 2 C D^2 / (t + 2)
    if T > 2 and rng.rand() < 0.5:
        f_ref = solve(S, D, 300)[1]
        D2 = D.diam ** 2
        C = S.L if step == "sublinear" else lip if step == "DR" else max(2.0 * S.L, lip or 0)
        for t in range(1, len(fs) - (1 if success else 0)):
            bound = 2 * C * D2 / (t + 2) + (t + 1) * F32 * (step == "backtracking")
            ctx.count("rate evaluations")
            ctx.check(fs[t] - f_ref <= bound * (1 + 1e-9) + 1e-12 * (1 + abs(f_ref)), "slower than the guaranteed rate of Frank-Wolfe", it=t, f=fs[t], reference=f_ref, bound=bound, **info)
    if T > 500:
        ctx.count("runs of more than 500 steps")
    if T > 3:
        ctx.key(digest(*R.points))
    ctx.sample(queries=T, success=success, **info)


def solve(S, D, iters):
    x, v = prob.fista(S.f_grad, lambda w, t: D.project(w), S.L, D.project(np.zeros(S.n)), iters)
    return x, v


def wl_conv(ctx, rng):
    wl(ctx, rng, convergence=True)


def wl_adapt(ctx, rng):
    """An estimate that is far too large is forgotten: the steps become as long as the curvature allows."""
    S, D, x0 = make(ctx, rng, which=["l1", "simplex", "box"][rng.randint(3)], nmax=12)
    scale = 10.0 ** rng.uniform(0, 2)
    S = prob.Smooth(rng, S.n, scale=scale)
    lip = S.L * 1e4
    info = dict(problem=S.name, set=D.name, lipschitz=lip, L=S.L, jac="true", step="backtracking")
    R = FWRun(ctx, rng, S, D, x0, D.obj.lmo, "backtracking", "true", lipschitz=lip, max_iter=250, tol=0.0)
    check_path(ctx, R, "backtracking", info=info)
    hi = check_linesearch(ctx, R, lip, info)
    seen = [float(r["u"].dot(r["d"])) ** 2 / (2 * float(r["d"].dot(r["d"])) * lip) > 1e-12 * (1 + S.f(r["x"])) for r in R.lmo_log[:120]]
    if len(R.points) < 250 or not all(seen) or any(float(r["u"].dot(r["d"])) <= 1e-6 * np.abs(r["u"]).dot(np.abs(r["d"])) for r in R.lmo_log[:150]):
        raise Skip  # at the solution nothing moves
    ctx.check(hi <= 100 * S.L, "after 250 steps the estimate is still much larger than the curvature", estimate=hi, **info)
    ctx.count("estimates forgotten")
    ctx.key("adapt", digest(*R.points[:20]))


def wl_long(ctx, rng):
    wl(ctx, rng, long=True)


WORKLOADS = [("long", wl_long, 60, 900), ("runs", wl, 3000, 40000), ("convergence", wl_conv, 200, 3000), ("adapt", wl_adapt, 300, 4000)]
