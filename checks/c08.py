"""C08-C10 share the recording of Frank-Wolfe runs made here; C08: feasibility and update rule."""
from collections import defaultdict

import numpy as np
import copt as cp
from vlib import gen, prob
from vlib.core import digest, Skip

ID = "C08"
RULE = ("random smooth problem x constraint set x step rule x gradient mode x stopping rule, run with the lmo, the objective and the "
        "callback recorded; non-trivial: at least 3 steps; distinct by digest of the sequence of iterates")
ASSUMPTIONS = ["gradients recomputed by an independent numpy implementation", "starting points inside the set"]
REQUIRED = ["steps", "lmo calls", "l1", "simplex", "trace", "box", "backtracking", "DR", "sublinear", "callable", "jac true", "jac callable", "jac 2-point",
            "limited steps", "stopped by callback", "badly scaled", "steps longer than one", "runs of more than 100 steps", "runs of more than 1000 steps", "vanishing gaps"]
F32 = float(np.finfo(np.float32).eps)


class FWRun:
    """One recorded run of minimize_frank_wolfe."""

    def __init__(self, ctx, rng, S, D, x0, lmo, step, jac_mode, variant="vanilla", x0_rep=None, lipschitz=None, **kw):
        self.S, self.D, self.lmo_log, self.cb = S, D, [], []
        self.rec = prob.Recorder(S)
        fun, jac = self.rec.api(rng, jac_mode)

        def wrapped(u, x, active_set):
            snap = None if active_set is None else dict(active_set)
            out = lmo(u, x, active_set)
            d, rep, away, mx = out
            self.lmo_log.append(dict(u=np.array(u), x=np.array(x), act=snap, d=np.array(d), rep=rep, away=away, max=float(mx), seq=self.rec.n()))
            return out

        self.stop_at = kw.pop("stop_at", None)

        def callback(dl):
            self.cb.append((np.array(dl["x"]), dl["step_size"], len(self.lmo_log)))
            if self.stop_at is not None and len(self.cb) == self.stop_at:
                return False

        if lipschitz is not None:
            kw["lipschitz"] = lipschitz
        args = (x0, wrapped)
        self.x0 = np.array(x0)
        x0_before = x0.copy()
        self.res = cp.minimize_frank_wolfe(fun, x0, wrapped, x0_rep=x0_rep, variant=variant, jac=jac, step=step, callback=callback,
                                           args=() if rng.rand() < 0.7 else (1, "a"), **kw)
        ctx.check(x0.tobytes() == x0_before.tobytes(), "minimize_frank_wolfe modified x0", mech="mutation")
        self.x = np.array(self.res.x)
        self.points = [r["x"] for r in self.lmo_log]


def pick(rng, D, S):
    step = ["backtracking", "backtracking", "DR", "sublinear", "callable"][rng.randint(5)]
    lip = None
    if step == "DR":
        lip = S.L * [1, 1, 0.7, 3][rng.randint(4)]
    elif rng.rand() < 0.6:
        lip = S.L * 10.0 ** rng.uniform(-2, 1)
    fn = step
    if step == "callable":
        c = 0.05 + 0.9 * rng.rand()
        k = [0]

        def fn(dl, k=k, c=c):
            dl["x"], dl["update_direction"], dl["max_step_size"], dl["func_and_grad"]
            k[0] += 1
            fn.log.append(min(c / np.sqrt(k[0]), dl["max_step_size"] if dl["max_step_size"] < 1 else 1.0))
            return fn.log[-1]

        fn.log = []
    return step, fn, lip


def make(ctx, rng, which=None, nmax=20, scale=None):
    n = 1 + rng.randint(nmax)
    S = prob.Smooth(rng, n, scale=scale)
    D = prob.Domain(rng, n, which)
    return S, D, D.start(rng)


def check_path(ctx, R, step, limit=1.0, info={}):
    """u = -grad(x); x_{t+1} = x_t + gamma_t d_t, 0 <= gamma_t <= max; iterates stay in the set."""
    S, D = R.S, R.D
    pts = R.points
    ctx.count("lmo calls", len(pts))
    ctx.check(len(pts) > 0 and np.array_equal(pts[0], R.x0), "the first iterate is not x0", first=pts[0] if pts else None, x0=R.x0, **info)
    scale = D.radius
    seq = pts + [R.x]
    gammas = []
    for t, r in enumerate(R.lmo_log):
        g = S.grad(r["x"])
        gmag = np.abs(S.A).T.dot(np.abs(S.A).dot(np.abs(r["x"])) + np.abs(S.b) + 1) / S.m + S.alpha * np.abs(r["x"])
        tol = (1e-13 if info["jac"] != "2-point" else 0) * gmag * (S.n + S.m)
        if info["jac"] == "2-point":
            tol = 1e-8 * S.L * np.sqrt(S.n) + 4 * prob.EPS * (1 + S.f(r["x"])) * 1e8 * (S.n + S.m)
        ctx.check(np.all(np.abs(r["u"] + g) <= tol + 1e-300), "the lmo is not queried at minus the gradient of the iterate",
                  it=t, u=r["u"], grad=g, x=r["x"], **info)
        v = D.violation(r["x"])
        ctx.check(v <= 1e-13 * (t + 4) * (S.n + 4) * max(scale, 1e-300) * 10, "the iterate left the constraint set", it=t, violation=v, x=r["x"], **info)
        nxt = seq[t + 1]
        d, delta = r["d"], nxt - r["x"]
        dd = d.dot(d)
        gamma = float(delta.dot(d) / dd) if dd > 0 else 0.0
        rtol = 1e-14 * 8 * (scale + np.abs(r["x"]).max())
        last = t == len(pts) - 1
        ctx.check(np.all(np.abs(delta - gamma * d) <= rtol), "the iterate is not x + gamma (s - x)", it=t, x=r["x"], d=d, next=nxt, **info)
        gt = rtol / max(np.sqrt(dd), 1e-300) * 4
        r["gamma"], r["gtol"] = gamma, gt
        if not (last and not delta.any()):
            ctx.check(gamma >= -gt and gamma <= r["max"] * (1 + 1e-12) + gt, "step size out of [0, maximum step]", it=t, gamma=gamma, max=r["max"], **info)
            ctx.count("steps")
        gammas.append(gamma)
    v = D.violation(R.x)
    ctx.check(v <= 1e-12 * (len(pts) + 4) * (S.n + 4) * scale, "the solution is outside of the constraint set", violation=v, x=R.x, **info)
    return gammas


def check_rule(ctx, R, step, fn, lip, info):
    """Each step is the one of the documented rule."""
    S = R.S
    for t, r in enumerate(R.lmo_log):
        last = t == len(R.lmo_log) - 1
        if last and np.array_equal(R.x, r["x"]):
            continue  # stopped there
        d, u = r["d"], r["u"]
        gap, dd = u.dot(d), d.dot(d)
        tol = r["gtol"]
        if step == "sublinear":
            ctx.check(abs(r["gamma"] - 2.0 / (t + 2)) <= tol, "sublinear step is not 2/(t+2)", it=t, gamma=r["gamma"], **info)
        elif step == "DR":
            e = min(gap / (dd * lip), r["max"])
            etol = 1e-12 * S.n * (np.abs(u).dot(np.abs(d)) / (dd * lip) + 1)
            ctx.check(abs(r["gamma"] - e) <= tol + etol, "Demyanov-Rubinov step is not min(gap / (L ||d||^2), max)", it=t, gamma=r["gamma"], expected=e, **info)
        elif step == "callable":
            ctx.check(t < len(fn.log) and abs(r["gamma"] - fn.log[t]) <= tol, "the step of the callable is not used", it=t, gamma=r["gamma"], **info)


def wl(ctx, rng, long=False):
    badly = rng.rand() < 0.25
    S, D, x0 = make(ctx, rng, nmax=4 if long else 20, scale=10.0 ** rng.uniform(-8, 5) if badly else None)
    step, fn, lip = pick(rng, D, S)
    jac = ["true", "callable", "true", "callable", "2-point"][rng.randint(4 if badly else 5)]
    if badly:
        ctx.count("badly scaled")
    if not long and rng.rand() < 0.08 and D.which in ("l1", "box"):  # next to a minimiser in the interior: gaps whose squares underflow
        S.b, jac = np.zeros_like(S.b), "true" if jac == "2-point" else jac
        x0 = rng.randn(S.n) * 10.0 ** rng.uniform(-175, -130)
        ctx.count("vanishing gaps")
    lmo = D.obj.lmo
    limited = rng.rand() < 0.25 and step in ("backtracking", "DR", "callable")
    halved = not limited and rng.rand() < 0.15 and step in ("DR", "callable")
    if halved:  # an oracle whose direction stops half way to the vertex, as those of away steps whose maximum step may exceed one
        def lmo(u, x, a, base=D.obj.lmo):
            d, r, aw, mx = base(u, x, a)
            return d / 2, r, aw, 2 * mx
        ctx.count("steps longer than one")
        if step == "callable":
            def fn(dl, fn0=fn):
                fn.log.append(2 * fn0(dl))
                return fn.log[-1]
            fn.log = []
    if limited:
        frac = 0.05 + 0.9 * rng.rand()

        def lmo(u, x, a, base=D.obj.lmo):
            d, r, aw, mx = base(u, x, a)
            return d, r, aw, frac * mx
        ctx.count("limited steps")
    kw = {}
    if rng.rand() < 0.15:
        kw["stop_at"] = 1 + rng.randint(6)
    max_iter = 1 + rng.randint(60) if rng.rand() < 0.93 else 150 + rng.randint(150)
    tol = [0, 1e-12, 1e-6, 1e-3, 1e-1][rng.randint(5)] * D.radius
    if long:
        max_iter, tol, kw = 1050 + rng.randint(1200), 0.0, {}
    info = dict(problem=S.name, set=D.name, step=step, jac=jac, lipschitz=lip, limited=limited, max_iter=max_iter, tol=tol)
    R = FWRun(ctx, rng, S, D, x0, lmo, fn, jac, lipschitz=lip, max_iter=max_iter, tol=tol, **kw)
    ctx.count(D.which)
    ctx.count(step)
    ctx.count("jac " + jac)
    if kw and len(R.cb) >= kw["stop_at"]:
        ctx.count("stopped by callback")
    check_path(ctx, R, step, info=info)
    check_rule(ctx, R, step, fn, lip, info)
    if len(R.points) > 100:
        ctx.count("runs of more than 100 steps")
    if len(R.points) > 1000:
        ctx.count("runs of more than 1000 steps")
    if len(R.points) > 3:
        ctx.key(digest(*R.points))
    ctx.sample(iterates=len(R.points), **info)


def wl_long(ctx, rng):
    wl(ctx, rng, long=True)


WORKLOADS = [("long", wl_long, 60, 800), ("paths", wl, 4000, 60000)]
