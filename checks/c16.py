"""C16: stochastic Frank-Wolfe."""
import numpy as np
import copt as cp
from scipy import sparse
from vlib import gen, prob
from vlib.core import digest, Skip
from checks.c10 import L1, Poly, check_active

ID = "C16"
RULE = ("random (data storage, derivative, set, variant, batch size, step rule, start): the calls of the derivative, the oracle, the step rule and the callback are recorded and replayed against the "
        "gradient estimator and update of the variant; labels are distinct so that each call tells which samples it visited; non-trivial: at least 4 steps that move; distinct by digest of the queries")
ASSUMPTIONS = ["the starting point is in the set (the vertex x0_rep for the pairwise variant)", "user step rules return steps in [0, 1]",
               "the gradient estimate of MHK is compared up to a positive factor", "SAGA with batches may scale its correction by n - 1 (as the code does) or n / batch - 1",
               "user step rules of the pairwise variant may be too large for the away vertex: the documented error is accepted there"]
REQUIRED = ["SAG", "SAGA", "MHK", "LF", "batch 1", "batches", "full batch", "sublinear", "DR", "callable", "pairwise", "vanilla", "iterations replayed", "estimates", "sparse data", "dense data",
            "l1", "simplex", "trace", "box", "callbacks", "success", "all epochs run", "too large step rejected", "samples visited uniformly", "gap closed", "duplicate entries", "active sets",
            "list start", "no batch fits", "large", "long runs"]


def deriv(kind):
    if kind == "log":
        return lambda p, y: np.where(p >= 0, 1 / (1 + np.exp(-np.abs(p))), np.exp(-np.abs(p)) / (1 + np.exp(-np.abs(p)))) - y
    if kind == "square":
        return lambda p, y: p - y
    return lambda p, y: np.tanh(p - y)


class SFW:
    """Records one run."""

    def __init__(self, ctx, rng, n=None, p=None, variant=None, batch=None, step=None, lmo_variant=None, max_iter=None, tol=0.0, kind=None, well=False, fmt=None):
        self.ctx = ctx
        self.n = n = n or 1 + rng.randint(12)
        self.p = p = p or 1 + rng.randint(10)
        A, ak = gen.dense_matrix(rng, n, p, ["normal", "normal"][rng.randint(2)] if well else ["normal", "sparse", "ties", "binary", "lowrank"][rng.randint(5)])
        if well:
            A = A / np.sqrt((A * A).sum(1).max())
        allow = ["C", "F", "readonly", "csr", "csr", "csc", "coo", "lil", "dok", "csr_unsorted", "csr_explicit0", "csr_dup", "csr64", "coo_dup", "csr_readonly", "stridedcols", "csr_emptyrows", "int"]
        M, fmt, D = gen.as_format(rng, A, fmt, allow)
        self.M, self.D, self.fmt = M, D, fmt
        ctx.count("sparse data" if sparse.issparse(M) else "dense data")
        if fmt.endswith("dup"):
            ctx.count("duplicate entries")
        self.kind = kind or ["log", "square", "logcosh"][rng.randint(3)]
        b = rng.permutation(n) / float(n) * [1, 3][rng.randint(2)] + 0.01 * rng.rand()  # distinct labels
        self.where = {float(v): i for i, v in enumerate(b)}
        assert len(self.where) == n
        self.b = b
        self.phi = deriv(self.kind)
        self.variant = variant or ["SAG", "SAGA", "MHK", "LF"][rng.randint(4)]
        self.batch = batch or [1, 1, 2, 3, 1 + rng.randint(n), n, n + 1][rng.randint(7)]
        self.lv = lmo_variant or ["vanilla", "vanilla", "pairwise"][rng.randint(3)]
        self.Lf = float(np.linalg.svd(D, compute_uv=False)[0] ** 2 / n * (0.25 if self.kind == "log" else 1.0))
        if self.lv == "pairwise":
            knd = ["l1", "l1", "simplex", "polytope"][rng.randint(4)]
            self.P = L1(rng, p) if knd == "l1" else Poly(rng, p, knd)
            rep = (float([1, -1][rng.randint(2)]), rng.randint(p)) if knd == "l1" else int(rng.randint(len(self.P.V)))
            x0 = self.P.decode(rep).astype(float).copy()
            lmo, self.kw = self.P.lmo, dict(x0_rep=rep, lmo_variant="pairwise")
        else:
            self.P = prob.Domain(rng, p)
            x0, lmo, self.kw = self.P.start(rng), self.P.obj.lmo, {}
            if rng.rand() < 0.5:
                self.kw["lmo_variant"] = "vanilla"
        ctx.count(self.P.which)
        self.step = step or (["DR", "callable"] if self.lv == "pairwise" else ["sublinear", "sublinear", "DR", "callable"])[rng.randint(2 if self.lv == "pairwise" else 4)]
        self.lip = None
        if self.step == "DR":
            self.lip = (self.Lf or 1.0) * [1, 0.3, 3, 30][rng.randint(4)]
            self.kw["lipschitz"] = self.lip
        elif rng.rand() < 0.2:
            self.kw["lipschitz"] = 1.0  # unused by the other rules
        c = 10.0 ** rng.uniform(-2, 0)
        if self.lv == "pairwise":
            c *= 0.3
        arg = self.step
        if self.step == "callable":
            agg = rng.rand()

            def arg(dl):
                k = len(self.steps)
                r = ([c, 0.0, c / (k + 1), min(1.0, 2 * c), c / (k + 1) ** 2][(k * 7 + 3) % 5], agg)
                self.steps.append(r)
                self.events.append(("step", r))
                return r
        self.steps, self.events, self.cb = [], [], []
        self.max_iter = max_iter or 1 + rng.randint(8)
        self.tol = tol
        self.x0 = x0
        self.info = dict(variant=self.variant, batch=self.batch, step=self.step, lipschitz=self.lip, lmo=self.lv, set=self.P.name, n=n, p=p, data=fmt, loss=self.kind, x0=x0, tol=tol, epochs=self.max_iter)
        ctx.count(self.variant)
        ctx.count(self.step)
        ctx.count(self.lv)
        ctx.count("full batch" if self.batch == n and n > 1 else "batch 1" if self.batch == 1 else "batches" if self.batch <= n else "no batch fits")

        def f_deriv(q, y):
            q, y = np.asarray(q, float), np.asarray(y, float)
            v = self.phi(q, y)
            try:
                ids = [self.where[float(t)] for t in np.atleast_1d(y)]
            except KeyError:
                ctx.fail("the derivative is evaluated with a label that is not one of b", y=y, **self.info)
            self.events.append(("deriv", ids, np.array(np.atleast_1d(q)), np.array(np.atleast_1d(v))))
            return v

        def rec_lmo(u, x, active_set=None):
            u, xc = np.array(u, float), np.array(x)
            act = None if active_set is None else dict(active_set)
            out = lmo(u, x, active_set)
            self.events.append(("lmo", u, xc, np.array(out[0], float), out[1], out[2], float(out[3]), act))
            return out

        def callback(dl):
            self.cb.append(np.array(dl["x"]))
            self.events.append(("cb", np.array(dl["x"])))

        sx = x0
        if rng.rand() < 0.2:
            sx = list(x0)
            ctx.count("list start")
        elif rng.rand() < 0.2:
            sx, _ = gen.layout(rng, x0, f32=False)
        self.rejected = None
        use_cb = rng.rand() < 0.9
        self.use_cb = use_cb
        try:
            self.res = cp.minimize_sfw(f_deriv, M, self.b, sx, rec_lmo, batch_size=self.batch, step_size=arg, max_iter=self.max_iter, tol=tol,
                                       callback=callback if use_cb else None, variant=self.variant, **self.kw)
        except ValueError as e:
            self.rejected = str(e)
            if not (self.lv == "pairwise" and self.step == "callable" and "too large" in str(e)):
                raise
            self.res = None
        if self.res is not None:
            self.x = np.array(self.res.x)

    def grad(self, x):
        return self.D.T.dot(self.phi(self.D.dot(x), self.b)) / self.n

    def iterations(self):
        """Groups of events: one per query of the oracle."""
        ctx, info = self.ctx, self.info
        its, cur = [], dict(step=None, ids=[], p=[], v=[], lmo=None)
        for e in self.events:
            if e[0] == "cb":
                continue
            if e[0] == "step":
                ctx.check(cur["step"] is None, "the step rule is called twice for one iteration", **info)
                cur["step"] = e[1]
            elif e[0] == "deriv":
                cur["ids"] += e[1]
                cur["p"] += list(e[2])
                cur["v"] += list(e[3])
            else:
                ctx.check(cur["lmo"] is None, "the oracle is called twice for one step", **info)
                cur["lmo"] = e[1:]
            if cur["lmo"] is not None and cur["ids"] and (self.variant == "LF" or e[0] == "lmo") and (len(cur["ids"]) >= self.batch):
                its.append(cur)
                cur = dict(step=None, ids=[], p=[], v=[], lmo=None)
        self.left = cur
        return its


def replay(ctx, R):
    info, n, D, P = R.info, R.n, R.D, R.P
    its = R.iterations()
    per_epoch = n if R.batch == 1 else n // R.batch
    amax = max(np.abs(D).max(), 1e-300)
    rad = P.radius if R.lv == "vanilla" else max(P.radius, 1e-300)
    x = np.array(R.x0, float)
    dual = np.zeros(n)
    agg = D.dot(x)
    vmax = 1e-300
    xs = [x]
    moved = 0
    T = len(its)
    for t, e in enumerate(its):
        u, xq, d, fwv, away, mx, act = e["lmo"]
        ids, pv, vv = e["ids"], np.array(e["p"]), np.array(e["v"])
        ctx.count("iterations replayed")
        ctx.check(len(ids) == R.batch, "a step does not use batch_size samples", it=t, used=len(ids), **info)
        ctx.check(len(set(ids)) == len(ids), "a batch contains the same sample twice", it=t, ids=ids, **info)
        # .. where the oracle is queried ..
        xtol = 1e-14 * (rad + np.abs(x).max()) * 8
        ctx.check(xq.shape == x.shape and np.all(np.abs(xq - x) <= xtol), "the oracle is not queried at x + step * direction", it=t, x=xq, expected=x, **info)
        x = xq
        if R.lv == "pairwise":
            check_active(ctx, P, act, x, t, info)
        elif act is not None:
            ctx.fail("the oracle of the vanilla variant receives an active set", it=t, **info)
        ctx.check(P.violation(x) <= 1e-12 * (t + 10) * max(rad, 1), "an iterate leaves the set", it=t, x=x, violation=P.violation(x), **info)
        # .. gradient estimator ..
        if R.variant == "MHK" or R.variant == "LF":
            if R.step == "callable":
                sa = e["step"][1]
            elif R.variant == "MHK":
                sa = (2.0 / (t + 8)) ** (2.0 / 3)
            else:
                m = n / R.batch
                sa = 2 * m / (2 * m + t + 1)
        old = dual.copy()
        if R.variant == "LF":
            u_ref = -(D.T.dot(dual))
            scale = amax * n * vmax / n
            agg[ids] += sa * (D[ids].dot(x + d) - agg[ids])
            p_ref = agg[ids]
        else:
            p_ref = D[ids].dot(x)
        pt = 1e-13 * (t + 10) * amax * (np.abs(x).sum() + np.abs(d).sum()) + 1e-15
        ctx.check(np.all(np.abs(pv - p_ref) <= pt), "the derivative is not evaluated at the predictions of the current iterate" if R.variant != "LF" else
                  "the derivative is not evaluated at the averaged predictions", it=t, ids=ids, got=pv, expected=p_ref, **info)
        if R.variant == "LF":
            agg[ids] = pv
        vmax = max(vmax, np.abs(vv).max())
        if R.variant == "MHK":
            dual[ids] += sa * (vv - dual[ids])
            u_ref = -D.T.dot(dual) / n
            scale = amax * vmax
        else:
            dual[ids] = vv / n
            if R.variant != "LF":
                u_ref = -D.T.dot(dual)
                scale = amax * vmax
        tol_u = 1e-13 * (t + 20) * scale * (2 if R.variant != "SAGA" else 4 * n)
        ctx.count("estimates")
        cert = None
        if R.variant == "SAGA":
            corr = D[ids].T.dot(dual[ids] - old[ids])
            cands = [u_ref - (n - 1) * corr]
            if R.batch > 1:
                cands.append(u_ref - (n / R.batch - 1) * corr)
            err = min(np.abs(u - c).max() for c in cands)
            ctx.check(err <= tol_u, "the oracle is not queried with the gradient estimate of SAGA", it=t, u=u, expected=cands[0], **info)
        elif R.variant == "MHK":
            nu, nr = np.linalg.norm(u), np.linalg.norm(u_ref)
            if nr > 1e6 * tol_u:
                ctx.check(nu > 0 and np.all(np.abs(u * (nr / nu) - u_ref) <= 10 * tol_u), "the oracle is not queried along the gradient estimate of MHK", it=t, u=u, expected=u_ref, **info)
            else:
                ctx.check(np.all(np.abs(u) <= 2 * n * (np.abs(u_ref) + 2 * tol_u)), "the oracle is not queried along the gradient estimate of MHK", it=t, u=u, expected=u_ref, **info)
        else:
            ctx.check(np.all(np.abs(u - u_ref) <= tol_u), "the oracle is not queried with the gradient estimate of %s" % R.variant, it=t, u=u, expected=u_ref, **info)
        # .. step ..
        if R.step == "callable":
            ctx.check(e["step"] is not None, "the user step rule was not called", it=t, **info)
            s = [e["step"][0]]
        elif R.step == "sublinear":
            m = n / R.batch
            s = [{"SAG": 2.0 / (t + 2), "SAGA": 2.0 / (t + 2), "MHK": 2.0 / (t + 8), "LF": 2 * (2 * m + t) / ((t + 1) * (4 * m + t))}[R.variant]]
        else:
            dd = float(d.dot(d))
            us = [u, u_ref]
            if R.variant == "LF":
                us = [-(D.T.dot(dual)), u]
            if R.variant == "MHK":
                us = [u]
            s = []
            for uu in us:
                c = float(uu.dot(d))
                ce = tol_u * np.abs(d).sum()
                if dd == 0:
                    s += [0.0]
                else:
                    for c2 in (c, c - ce, c + ce):
                        s.append(0.0 if c2 <= 0 else min(c2 / (dd * R.lip), mx))
            lo, hi = min(s), max(s)
        # .. next point ..
        if t + 1 < T:
            nxt = its[t + 1]["lmo"][1]
        elif R.res is not None:
            nxt = R.x
        else:
            break
        if R.step == "DR":
            # the step is read from the movement
            got = float((nxt - x).dot(d) / dd) if dd > 0 else 0.0
            et = 1e-12 * (1 + rad) / max(np.sqrt(dd), 1e-9) + 1e-12
            if R.variant in ("SAGA", "LF"):
                vals = [s[0:3], s[3:6]] if dd > 0 else [[0.0]]
                ctx.check(any(min(v) * (1 - 1e-9) - et <= got <= max(v) * (1 + 1e-9) + et for v in vals), "the step is not the Demyanov-Rubinov step", it=t, taken=got, expected=[v[0] for v in vals], **info)
            else:
                ctx.check(lo * (1 - 1e-9) - et <= got <= hi * (1 + 1e-9) + et, "the step is not the Demyanov-Rubinov step", it=t, taken=got, expected=s[0], **info)
            x_next = x + got * d
        else:
            x_next = x + s[0] * d
        if np.abs(nxt - x).max() > 0:
            moved += 1
        x = x_next
        xs.append(x)
    if R.res is None:
        ctx.count("too large step rejected")
        return its, xs, moved
    ctx.check(np.all(np.abs(R.x - x) <= 1e-14 * (rad + np.abs(x).max()) * 8), "the solution is not the last iterate", x=R.x, expected=x, **info)
    ctx.check(P.violation(R.x) <= 1e-12 * (T + 10) * max(rad, 1), "the solution leaves the set", x=R.x, violation=P.violation(R.x), **info)
    if R.tol == 0:
        ctx.check(T == per_epoch * R.max_iter, "the run does not make max_iter passes of one step per batch", steps=T, expected=per_epoch * R.max_iter, **info)
        ctx.check(not R.res.success, "success is reported with tol = 0", **info)
        ctx.count("all epochs run")
    if R.use_cb:
        ctx.count("callbacks")
        ctx.check(len(R.cb) in (T, T + 1), "the callback is not called once per step", calls=len(R.cb), steps=T, **info)
        for a, c in zip(xs[1:], R.cb[len(R.cb) - T:]):
            ctx.check(np.all(np.abs(a - c) <= 1e-14 * (rad + np.abs(a).max()) * 8), "the callback does not receive the iterate", got=c, expected=a, **info)
    return its, xs, moved


def wl(ctx, rng):
    R = SFW(ctx, rng)
    its, xs, moved = replay(ctx, R)
    if moved > 3:
        ctx.key(digest(*[e["lmo"][1] for e in its]))
    ctx.sample(steps=len(its), moved=moved, **R.info)


def wl_large(ctx, rng):
    """Many samples, many batches in an epoch, many features."""
    k = rng.randint(4)
    n = [70 + rng.randint(200), 1001 + rng.randint(60), 1001 + rng.randint(60), 1 + rng.randint(8)][k]
    p = 1 + rng.randint(3) if k < 3 else 65 + rng.randint(100)
    R = SFW(ctx, rng, n=n, p=p, batch=[1, 2, 3, 7][rng.randint(4)] if k < 3 else None, max_iter=1 + rng.randint(2))
    its, xs, moved = replay(ctx, R)
    ctx.count("large")
    if moved > 3:
        ctx.key("large", digest(*[e["lmo"][1] for e in its[:50]]))


def wl_long(ctx, rng):
    """Hundreds of steps, every one replayed."""
    n = 1 + rng.randint(4)
    b = [1, 1, 2, n][rng.randint(4)]
    R = SFW(ctx, rng, n=n, p=1 + rng.randint(4), batch=b, max_iter=int(300 + rng.randint(300)) // max(1, n // b) + 1)
    its, xs, moved = replay(ctx, R)
    if len(its) >= 300:
        ctx.count("long runs")
    if moved > 3:
        ctx.key("long", digest(*[e["lmo"][1] for e in its[:50]]))


def wl_tol(ctx, rng):
    """Success means two successive iterates closer than tol."""
    R = SFW(ctx, rng, tol=[1e-6, 1e-3, 0.05, 0.5][rng.randint(4)], lmo_variant="vanilla")
    its = R.iterations()
    pts = [e["lmo"][1] for e in its] + [R.x]
    d = [float(np.abs(b - a).sum()) for a, b in zip(pts, pts[1:])]
    per_epoch = R.n if R.batch == 1 else R.n // R.batch
    small = [v for v in d if v < R.tol]
    near = any(abs(v - R.tol) <= 1e-12 * (1 + R.P.radius) for v in d)
    if not near:
        ctx.check(bool(R.res.success) == bool(small), "success does not tell whether two successive iterates were closer than tol", success=bool(R.res.success), smallest=min(d) if d else None, **R.info)
        if not small:
            ctx.check(len(its) == per_epoch * R.max_iter, "the run stopped before max_iter without reaching tol", steps=len(its), **R.info)
    if R.res.success:
        ctx.count("success")
    ctx.check(R.P.violation(R.x) <= 1e-12 * (len(its) + 10) * max(R.P.radius, 1), "the solution leaves the set", x=R.x, violation=R.P.violation(R.x), **R.info)
    ctx.key("tol", digest(*pts))


def wl_uniform(ctx, rng):
    """Every sample is visited, about equally often (far beyond chance otherwise)."""
    n = 2 + rng.randint(8)
    R = SFW(ctx, rng, n=n, p=1 + rng.randint(3), batch=[1, 1, 2, max(2, n // 2)][rng.randint(4)], step="sublinear", lmo_variant="vanilla", max_iter=150)
    its = R.iterations()
    c = np.zeros(n)
    for e in its:
        for i in e["ids"]:
            c[i] += 1
    N = c.sum()
    q = N / n
    # six sigma and then some: binomial, or hypergeometric draws which vary less
    ctx.check(np.all(np.abs(c - q) <= 8 * np.sqrt(q) + 8), "samples are not visited uniformly", counts=c, expected=q, **R.info)
    # consecutive draws are not tied to each other
    if R.batch == 1:
        rep = sum(a["ids"] == b["ids"] for a, b in zip(its, its[1:]))
        m = (len(its) - 1.0) / n
        ctx.check(abs(rep - m) <= 8 * np.sqrt(m) + 8, "successive samples are not independent draws", repeats=rep, expected=m, **R.info)
    ctx.count("samples visited uniformly")
    ctx.key("uniform", digest(c))


def wl_conv(ctx, rng):
    """The Frank-Wolfe gap of well conditioned problems shrinks."""
    variant = ["SAG", "SAG", "MHK", "LF", "SAGA"][rng.randint(5)]
    batch = [1, 2, 5][rng.randint(3)]
    R = SFW(ctx, rng, n=10 + rng.randint(10), p=2 + rng.randint(5), variant=variant, batch=batch, step=["sublinear", "sublinear", "DR"][rng.randint(3)] if variant in ("SAG", "LF") else "sublinear",
            lmo_variant="vanilla", max_iter=60 * batch + 20, kind=["square", "log"][rng.randint(2)], well=True, fmt="C")
    if R.P.which == "trace" and min(R.P.shape) > 1:
        raise Skip
    P = R.P
    g = P.gap(R.x, R.grad(R.x))
    T = len(R.cb) or 1
    C = R.Lf * P.diam ** 2
    Lm = (R.D ** 2).sum(1).max() * (0.25 if R.kind == "log" else 1.0)
    bound = {"SAG": 0.2, "LF": 0.2, "SAGA": 0.6, "MHK": 0.6}[variant] * Lm * P.diam ** 2
    if R.step == "DR":
        bound = 0.4 * Lm * P.diam ** 2 * max(1.0, R.lip / R.Lf) if R.lip >= R.Lf else np.inf
    ctx.check(g <= bound + 1e-9, "the Frank-Wolfe gap does not shrink", gap=g, bound=bound, variant_=variant, **R.info)
    ctx.count("gap closed")
    ctx.key("conv", digest(R.x))


WORKLOADS = [("replay", wl, 8000, 100000), ("large", wl_large, 80, 1200, {"heavy": True}), ("long", wl_long, 50, 700, {"heavy": True}), ("tolerance", wl_tol, 400, 6000), ("uniform", wl_uniform, 40, 500), ("convergence", wl_conv, 60, 1000)]
