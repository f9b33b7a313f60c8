"""C12: three operator splitting."""
import numpy as np
import copt as cp
from vlib import gen, prob
from vlib.core import digest, Skip

ID = "C12"
RULE = ("random smooth problem x two nonsmooth terms x step rule, run with both proximal operators, the objective and the callback recorded; a reported success is judged by the "
        "optimality conditions that the recorded proximal calls certify; non-trivial: at least 4 iterations; distinct by digest of the iterates")
ASSUMPTIONS = ["tolerances above the rounding noise of the objective", "the recorded proximal operators are compared with independent implementations"]
REQUIRED = ["accepted steps", "success", "max_iter reached", "line search", "fixed step", "h_Lipschitz", "optimality certificates", "both terms", "one term", "smooth only", "stopped by callback",
            "converged", "reference comparisons", "iterations replayed", "rejected steps", "trials exhausted", "steps grown", "badly scaled", "runs of more than 500 iterations"]


class Smoothed:
    """f_grad with the return_gradient option, recorded."""

    def __init__(self, S):
        self.S, self.log = S, []

    def __call__(self, x, return_gradient=True):
        self.log.append((np.array(x), return_gradient))
        if return_gradient:
            return self.S.f_grad(x)
        return self.S.f(x)


class Identity:
    def prox(self, v, t):
        return v


def recorded(P, log, args, order=None, tag=None, rng=None):
    if P.obj is None:
        if rng is None or rng.rand() < 0.5:
            return None
        P.obj = Identity()

    def prox(v, t, *a):
        if a != args:
            raise RuntimeError("args_prox not passed to the proximal operator: %r" % (a,))
        v0 = np.array(v)
        out = P.obj.prox(v, t)
        log.append((v0, float(t), np.array(out)))
        if order is not None:
            order.append((tag,) + log[-1])
        return out

    return prox


def prox_err(P, v, t, out):
    """Error of a recorded proximal call with respect to the independent one, and its tolerance."""
    e = P.prox(v, t)
    return float(np.abs(e - out).max()), 1e-13 * (v.size + 10) * (np.abs(v).max() + P.a * (1 if P.ball else t))


def find(log, x):
    for k in range(len(log) - 1, -1, -1):
        if np.array_equal(log[k][2], x):
            return k
    return None


def wl(ctx, rng, conv=False, long=False):
    n = 1 + rng.randint(4 if long else 16)
    S = prob.Smooth(rng, n, **(dict(kind="square", ridge=0.3, scale=1.0) if conv else dict(scale=10.0 ** rng.uniform(-4, 4.5)) if rng.rand() < 0.2 else {}))
    if not 0.05 < S.L < 50:
        ctx.count("badly scaled")
    if rng.rand() < (0.3 if conv else 0.15) and S.kind != "log":
        S.b = S.b * 10.0 ** rng.randint(1, 6 if conv else 4)
    kinds = ["none", "l1", "l1", "group", "l2ball", "linfball", "l1ball", "simplex", "tv"]
    k1, k2 = kinds[rng.randint(9)], kinds[rng.randint(9)]
    balls = ("l2ball", "linfball", "l1ball", "simplex")
    if k1 in balls and k2 in balls:
        k2 = kinds[[0, 1, 3, 8][rng.randint(4)]]
    P1, P2 = prob.Pen(rng, n, k1, scale=S.L), prob.Pen(rng, n, k2, scale=S.L)
    x0 = rng.randn(n) * [0, 0.1, 1, 5][rng.randint(4)]
    mode = ["ls", "ls", "fixed", "ls step", "hlip"][rng.randint(5)]
    args = () if rng.rand() < 0.7 else ("extra", 2)
    kw = dict(args_prox=args) if args else {}
    if mode == "fixed":
        kw.update(step_size=[1.0, 0.3, 1.5][rng.randint(3)] / S.L, line_search=False)
    elif mode == "ls step":
        kw.update(step_size=10.0 ** rng.uniform(-1, 2) / S.L, line_search=True)
    elif mode == "hlip":
        h = {"none": 0.0, "l1": P2.a * np.sqrt(n), "group": P2.a * np.sqrt(n), "tv": 2 * P2.a * np.sqrt(n)}.get(k2)
        if h is None:
            mode = "ls"
        else:
            kw.update(h_Lipschitz=h)
            ctx.count("h_Lipschitz")
    bf, mib = 0.7, 100
    if mode != "fixed" and not conv:
        if rng.rand() < 0.3:
            bf = float(rng.uniform(0.1, 0.98))
            kw["backtracking_factor"] = bf
        if rng.rand() < 0.15:
            mib = int(1 + rng.randint(6))
            kw["max_iter_backtracking"] = mib
            ctx.count("few trials")
    max_iter = int([1, 2, 10, 60, 300][rng.randint(5)])
    tol = float([1e-6, 1e-4, 1e-2, 0.3][rng.randint(4)] * (1 if rng.rand() < 0.5 else S.L))
    stop_at = None
    if conv:
        # well conditioned, the step at its natural value
        max_iter, tol = 6000, [1e-4, 1e-6][rng.randint(2)] * max(1, np.abs(S.b).max() * 1e-3)
    elif long:
        max_iter, tol = 600 + rng.randint(1200), [0.0, 1e-300, 1e-14][rng.randint(3)]
    elif rng.rand() < 0.12:
        stop_at = 1 + rng.randint(6)
    l1, l2, cb = [], [], []
    order = []
    p1, p2 = recorded(P1, l1, args, order, 1, rng), recorded(P2, l2, args, order, 2, rng)
    fg = Smoothed(S)

    def callback(dl):
        cb.append((np.array(dl["x"]), float(dl["step_size"]), len(order)))
        if stop_at is not None and len(cb) == stop_at:
            return False

    x0c = x0.copy()
    info = dict(problem=S.name, g=P1.name, h=P2.name, mode=mode, max_iter=max_iter, tol=tol, L=S.L, options={k: v for k, v in kw.items() if k != "args_prox"})
    res = cp.minimize_three_split(fg, x0, p1, p2, tol=tol, max_iter=max_iter, callback=callback, **kw)
    ctx.check(x0.tobytes() == x0c.tobytes(), "minimize_three_split modified x0", mech="mutation")
    x = np.array(res.x)
    ctx.count("fixed step" if mode == "fixed" else "line search")
    ctx.count("both terms" if k1 != "none" and k2 != "none" else "smooth only" if k1 == k2 else "one term")
    ctx.check(x.shape == (n,) and np.isfinite(x).all(), "the solution is not finite", x=x, **info)
    ctx.check(len(cb) <= max_iter and res.nit < max_iter, "more iterations than max_iter", nit=res.nit, calls=len(cb), **info)
    ctx.check(np.array_equal(cb[-1][0], x), "the solution is not the iterate of the last iteration", **info)
    for P, log in ((P1, l1), (P2, l2)):
        for v, t, out in log[-3:]:
            e, tl = prox_err(P, v, t, out)
            ctx.check(e <= tl, "a recorded proximal call is wrong", error=e, **info)
    if mode == "fixed":
        ctx.check(all(r[1] == kw["step_size"] for r in l1 + l2), "the fixed step size is not the one used", steps=[r[1] for r in (l1 + l2)[:5]], **info)
    stopped = stop_at is not None and len(cb) >= stop_at
    if stopped:
        ctx.count("stopped by callback")
        ctx.check(not res.success, "success although the callback stopped the solver", **info)
        ctx.check(len(cb) == stop_at, "the solver went on after the callback asked to stop", **info)
    elif not res.success:
        ctx.count("max_iter reached")
        ctx.check(len(cb) == max_iter, "stopped early without success", calls=len(cb), **info)
        ctx.check(not (res.certificate < tol and max_iter > 1), "certificate below tol without success", certificate=res.certificate, **info)
    if P1.obj is not None and P2.obj is not None:
        recursion(ctx, S, order, cb, mode, kw, bf, mib, info)
    if P1.ball:
        ctx.check(P1.violation(x) <= 1e-12 * (n + 4) * (P1.a + np.abs(x0).max()), "the solution is not in the domain of g", violation=P1.violation(x), **info)
    if res.success:
        ctx.count("success")
        ctx.check(res.certificate < tol, "success although the certificate is above tol", certificate=res.certificate, **info)
        optimality(ctx, S, P1, P2, l1, l2, x, cb[-1][1], tol, res, info)
        reference(ctx, rng, S, P1, P2, x0, x, tol, cb[-1][1], info)
    if conv:
        ctx.check(bool(res.success), "a well conditioned problem is not solved", certificate=res.certificate, **info)
        ctx.count("converged")
    if len(cb) > 500:
        ctx.count("runs of more than 500 iterations")
    if len(cb) > 3:
        ctx.key(digest(*[c[0] for c in cb[:5]], x))
    ctx.sample(iterations=len(cb), success=bool(res.success), **info)


def recursion(ctx, S, order, cb, mode, kw, bf, mib, info):
    """The recorded proximal calls of every iteration are those of the Davis-Yin recursion, at steps its line search accepts."""
    segs = [order[a:b] for a, b in zip([0] + [c[2] for c in cb], [c[2] for c in cb])]
    z = None
    u, err = np.zeros(S.n), np.zeros(S.n)
    prev, room = None, None
    eps = 2.0 ** -52
    for k, seg in enumerate(segs):
        if k == 0:
            if not seg or seg[0][0] != 2:
                ctx.count("other start")
                return
            z, t0 = seg[0][3], seg[0][2]
            seg = seg[1:]
        ctx.check(len(seg) >= 2 and seg[-1][0] == 2 and all(r[0] == 1 for r in seg[:-1]), "an iteration is not proximal steps of g followed by one of h", it=k, calls=[r[0] for r in seg], **info)
        g = S.grad(z)
        gn = np.abs(S.A).T.dot(np.abs(S.A).dot(np.abs(z)) + np.abs(S.b) + 1) / S.m + S.alpha * np.abs(z)
        trials = []
        for tag, v, t, out in seg[:-1]:
            e = z - t * (u + g)
            tol = 8 * eps * (S.n + S.m + 8) * (np.abs(z) + t * (np.abs(u) + gn)) + t * err
            ctx.check(np.all(np.abs(v - e) <= tol), "the proximal step of g is not taken at z - step (u + gradient)", it=k, step=t, got=v, expected=e, **info)
            if not trials or t != trials[-1][0]:
                trials.append((t, out))
            else:
                trials[-1] = (t, out)  # computed again, maybe with another rounding
        t, x = trials[-1]
        _, w, t2, z2 = seg[-1]
        fe = noise(S, x, z)
        if mode == "fixed":
            ctx.check(len(trials) == 1 and t2 == t, "a fixed step changes", it=k, **info)
        else:
            ctx.check(len(trials) <= mib, "more trials than max_iter_backtracking", it=k, trials=len(trials), **info)
            for (ta, xa), (tb, _) in zip(trials, trials[1:]):
                ctx.check(abs(tb / ta - bf) <= 1e-12, "the step is not reduced by backtracking_factor", it=k, ratio=tb / ta, factor=bf, **info)
                q = ((xa - z) ** 2).sum() / (2 * ta)
                ctx.check(bregman(S, xa, z) > q * (1 - 1e-9) - 10 * noise(S, xa, z), "a step that satisfies the quadratic upper bound was rejected", it=k, step=ta, **info)
                ctx.count("rejected steps")
            nd = np.linalg.norm(x - z)
            q = nd ** 2 / (2 * t)
            dev = bregman(S, x, z)
            if t2 != t:
                ctx.check(len(trials) == mib and abs(t2 / t - bf) <= 1e-12, "the step changes between the two proximal operators", it=k, steps=(t, t2), **info)
                ctx.check(dev > q * (1 - 1e-9) - 10 * fe, "a step that satisfies the quadratic upper bound was rejected", it=k, step=t, **info)
                ctx.count("trials exhausted")
            elif nd > 1.01e-7:
                ctx.count("accepted steps")
                ctx.check(dev <= q * (1 + 1e-9) + fe, "the line search accepted a step that does not satisfy the quadratic upper bound", it=k, step=t, deviation=dev, bound=q, **info)
            first = trials[0][0]
            if prev is not None:
                if "h_Lipschitz" in kw:
                    h = kw["h_Lipschitz"]
                    top = np.inf if h == 0 else max(prev, np.sqrt(prev ** 2 + 2 * prev / h ** 2 * room))
                    ctx.check(first <= top * (1 + 1e-9), "the step grows more than the Lipschitz constant of h allows", it=k, step=first, previous=prev, bound=top, **info)
                    if first > prev:
                        ctx.count("steps grown")
                    elif first < prev:
                        ctx.count("steps reduced by h_Lipschitz")
                else:
                    ctx.check(first == prev, "the step changes between iterations", it=k, step=first, previous=prev, **info)
            else:
                ctx.check(first == t0, "the first step is not the one of the starting point", it=k, steps=(t0, first), **info)
                if "step_size" in kw:
                    ctx.check(first == kw["step_size"], "the line search does not start at step_size", first=first, **info)
                else:
                    ctx.check(first >= min(0.0999 / S.L, 999.0), "the estimated step is needlessly short", step=first, **info)
            room = max(q - dev, 0) + 10 * fe
        e = x + t2 * u
        tol = 8 * eps * (np.abs(x) + t2 * np.abs(u)) + t2 * err
        ctx.check(np.all(np.abs(w - e) <= tol), "the proximal step of h is not taken at x + step u", it=k, step=t2, got=w, expected=e, **info)
        u = u + (x - z2) / t2
        err = err + 8 * eps * (np.abs(u) + (np.abs(x) + np.abs(z2)) / t2)
        z, prev = z2, t2
        ctx.count("iterations replayed")


def bregman(S, x, z):
    return S.f(x) - S.f(z) - S.grad(z).dot(x - z)


def noise(S, x, z):
    zz = np.abs(S.A).dot(np.abs(x) + np.abs(z)) + np.abs(S.b) + 1
    return 1e-15 * (S.m + S.n) * (float(np.mean(zz * zz)) + S.alpha * float((np.abs(x) + np.abs(z)).dot(np.abs(x) + np.abs(z)))) + 1e-15


def optimality(ctx, S, P1, P2, l1, l2, x, step, tol, res, info):
    """From the recorded proximal calls: p in dg(x), q in dh(z), |p + q + grad f(x)| and |x - z| small."""
    t, p, v = step, np.zeros(S.n), x
    if P1.obj is not None:
        k = find(l1, x)
        if k is None:
            ctx.count("solution is not a recorded proximal point")
            return
        v, t, _ = l1[k]
        p = (v - x) / t
    g = S.grad(x)
    best = None
    for w, s, z in l2[-4:] if P2.obj is not None else [(x, step, x)]:
        q = (w - z) / s
        r = np.linalg.norm(p + q + g)
        d = np.linalg.norm(x - z)
        t1 = max(t, s, step)
        noise = 1e-15 * (S.n + S.m) * (np.linalg.norm(v) / t + np.linalg.norm(w) / s + np.linalg.norm(g) + np.linalg.norm(np.abs(S.A).T.dot(np.abs(S.b) + np.abs(S.A).dot(np.abs(x)))) / S.m)
        excess = max(r / (tol * (1 + t1 * S.L) * 1.001 + noise), d / (tol * t1 * 1.001 + noise * t1))
        if best is None or excess < best[0]:
            best = (excess, r, d, t1)
    ctx.count("optimality certificates")
    ctx.check(best[0] <= 1, "success is reported but the optimality conditions do not hold at x", residual=best[1], distance=best[2], step=best[3], certificate=res.certificate, **info)


def davis_yin(S, P1, P2, x0, iters):
    """own reference: z fixed point iteration with step 1/L"""
    t = 1.0 / S.L
    y = np.array(x0, float)
    for _ in range(iters):
        z = P2.prox(y, t)
        x = P1.prox(2 * z - y - t * S.grad(z), t)
        y = y + x - z
        if np.abs(x - z).max() < 1e-14 * (1 + np.abs(x).max()):
            break
    return x, z


def reference(ctx, rng, S, P1, P2, x0, x, tol, step, info):
    """The objective at the solution against the one of an independent solver."""
    if P2.ball or rng.rand() > 0.5:
        return  # h(x) is infinite away from z
    w, _ = davis_yin(S, P1, P2, x0, 1500)
    Fw = S.f(w) + P1.value(w) + P2.value(w)
    Fx = S.f(x) + P1.value(x) + P2.value(x)
    lip = {"l1": P2.a * np.sqrt(S.n), "group": P2.a * np.sqrt(S.n), "tv": 2 * P2.a * np.sqrt(S.n), "none": 0.0}[P2.which]
    bound = tol * (1 + step * S.L) * np.linalg.norm(x - w) + 2 * lip * tol * step
    ctx.count("reference comparisons")
    ctx.check(Fx - Fw <= 1.01 * bound + 1e-12 * (abs(Fw) + P2.a), "success is reported but a much better point exists", F=Fx, better=Fw, bound=bound, **info)


def wl_conv(ctx, rng):
    wl(ctx, rng, conv=True)


def wl_long(ctx, rng):
    wl(ctx, rng, long=True)


WORKLOADS = [("long", wl_long, 120, 1500), ("runs", wl, 9000, 150000), ("convergence", wl_conv, 250, 4000)]
