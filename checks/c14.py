"""C14: SAGA and SVRG."""
import numpy as np
import copt as cp
import copt.loss as cl
import copt.penalty as cpn
from scipy import sparse
from vlib import gen, prob, ref
from vlib.core import digest, Skip

ID = "C14"
RULE = ("random (data storage, loss, ridge, block penalty, step size, start): the calls of the block proximal operator give the history of the run (sample order, state before and after each step), "
        "which is replayed against the reference recursion of the method; non-trivial: at least one epoch that moves the iterate; distinct by digest of the history")
ASSUMPTIONS = ["every feature appears in at least one sample", "the derivative passed is a function of its arguments", "per-step resynchronisation on the observed iterate"]
REQUIRED = ["saga", "svrg", "steps replayed", "epochs", "no prox", "plain callable prox", "L1", "GroupL1", "FusedLasso half", "success", "max_iter reached", "converged", "dense data", "sparse data",
            "duplicate entries", "shared blocks", "ridge", "step size zero movement", "samples without features", "success certified", "random orders", "integer labels", "large", "consecutive orders", "position counts", "long runs"]
SOLVERS = {"saga": cp.minimize_saga, "svrg": cp.minimize_svrg}


def derivs(kind):
    """(independent derivative, curvature)"""
    if kind == "log":
        return lambda p, y: np.where(p >= 0, 1 / (1 + np.exp(-np.abs(p))), np.exp(-np.abs(p)) / (1 + np.exp(-np.abs(p)))) - y
    if kind == "square":
        return lambda p, y: p - y
    return lambda p, y: np.tanh(p - y)  # log cosh


def build(ctx, rng, n_max=12, p_max=10, fmt=None, strong=False, shape=None):
    n, p = shape or (1 + rng.randint(n_max), 1 + rng.randint(p_max))
    A, ak = gen.dense_matrix(rng, n, p, ["normal", "sparse", "sparse", "ties", "binary"][rng.randint(5)])
    if rng.rand() < 0.3 and not strong and n > 1:
        A[rng.randint(n)] = 0  # a sample without any feature
    if shape and n > 20 and p > 1 and rng.rand() < 0.5:
        A[:, rng.randint(p)] = 0  # a rare feature
    if p > 1000:
        A[rng.rand(n, p) < 0.97] = 0
    for j in np.flatnonzero(~A.any(0)):
        A[rng.randint(n), j] = rng.randn() + 0.1
    c = 10.0 ** rng.uniform(-1, 1) if not strong else 1.0 / max(1e-9, np.sqrt((A * A).sum(1).max()))
    A = A * c
    allow = ["C", "F", "readonly", "csr", "csr", "csc", "coo", "lil", "csr_unsorted", "csr_explicit0", "csr_dup", "csr64", "coo_dup", "csr_readonly", "float32", "stridedcols"]
    M, fmt, D = gen.as_format(rng, A, fmt, allow)
    if not all(D[:, j].any() for j in range(p)):
        raise Skip
    ctx.count("sparse data" if sparse.issparse(M) else "dense data")
    if fmt.endswith("dup"):
        ctx.count("duplicate entries")
    if not np.all(D.any(1)):
        ctx.count("samples without features")
    kind = ["log", "square", "square", "cosh"][rng.randint(4)]
    if kind == "log":
        b = (rng.rand(n) < 0.5).astype(float) if rng.rand() < 0.7 else rng.rand(n)
    else:
        b = rng.randn(n)
    if rng.rand() < 0.2 and not strong:
        b = (b > 0.5).astype(int) if kind == "log" else np.round(3 * b).astype([int, np.int32, np.int8][rng.randint(3)])
        ctx.count("integer labels")
    own = rng.rand() < 0.4 or kind == "cosh"
    if own:
        f = derivs(kind)
    else:
        L = cl.LogLoss(M, b) if kind == "log" else cl.SquareLoss(M, b)
        f = L.partial_deriv
    return dict(n=n, p=p, M=M, D=D, fmt=fmt, kind=kind, b=b, f=f, df=derivs(kind), own=own)


class Block:
    """A block penalty of the package, or an identity, recorded; with an independent description."""

    def __init__(self, ctx, rng, p, scale, which=None):
        which = which or ["identity", "L1", "L1", "GroupL1", "GroupL1", "FusedLasso half", "custom"][rng.randint(7)]
        self.which, self.p = which, p
        self.alpha = a = float(scale * 10.0 ** rng.uniform(-3, 0))
        self.groups = [[j] for j in range(p)]
        self.pen = []
        if which == "L1":
            self.fun, self.blocks = cpn.L1Norm(a).prox_factory(p)
            self.pen = self.groups
        elif which == "GroupL1":
            from checks.c04 import make_groups
            g = [list(map(int, q)) for q in make_groups(rng, p)]
            self.fun, self.blocks = cpn.GroupL1(a, g).prox_factory(p)
            self.pen = g
        elif which == "FusedLasso half":
            first = rng.randint(2)
            F = cpn.FusedLasso(a)
            self.fun, self.blocks = (F.prox_2_factory if first else F.prox_1_factory)(p)
            self.pen = [[j, j + 1] for j in range(first, p - 1, 2)]
        else:
            self.fun, self.blocks = (lambda *args: None), sparse.eye(p, p, format="csr")
            if which == "custom":
                # contiguous random blocks, prox of a/2 |x_B|^2
                cuts = np.unique(np.r_[0, rng.randint(0, p + 1, size=rng.randint(4)), p])
                ptr = cuts.astype(np.int32)
                self.blocks = sparse.csr_matrix((np.ones(p), np.arange(p, dtype=np.int32), ptr), shape=(len(cuts) - 1, p))

                def shrink(x, i, indices, indptr, d, step):
                    for b in range(indptr[i], indptr[i + 1]):
                        h = indices[b]
                        x[ptr[h]: ptr[h + 1]] /= 1 + a * d[h] * step

                self.fun = shrink
        self.rows = [list(map(int, self.blocks.indices[self.blocks.indptr[k]: self.blocks.indptr[k + 1]])) for k in range(self.blocks.shape[0])]
        ctx.count(which)

    def value(self, x):
        if self.which == "L1":
            return self.alpha * np.abs(x).sum()
        if self.which == "GroupL1":
            return self.alpha * sum(np.linalg.norm(x[g]) for g in self.pen)
        if self.which == "FusedLasso half":
            return self.alpha * sum(abs(x[g[0]] - x[g[1]]) for g in self.pen)
        if self.which == "custom":
            return self.alpha / 2 * x.dot(x)
        return 0.0

    def prox_block(self, v, h, t):
        """prox of t * penalty restricted to block h"""
        r = self.rows[h]
        a = self.alpha
        w = v[r]
        if self.which == "custom":
            return w / (1 + a * t)
        if getattr(self, "_of", None) is not self.pen:
            self._of, self._set = self.pen, {tuple(q) for q in self.pen}
        if tuple(r) not in self._set:
            return w
        if self.which == "L1":
            return np.sign(w) * np.maximum(np.abs(w) - a * t, 0)
        if self.which == "GroupL1":
            nr = np.linalg.norm(w)
            return w * max(1 - a * t / nr, 0) if nr > 0 else w
        m, h2 = w.sum() / 2, (w[0] - w[1]) / 2
        h2 = np.sign(h2) * max(abs(h2) - a * t, 0)
        return np.array([m + h2, m - h2])

    def prox(self, v, t):
        out = np.array(v, float)
        for h in range(len(self.rows)):
            out[self.rows[h]] = self.prox_block(out, h, t)
        return out


def outside(p, S):
    m = np.ones(p, bool)
    m[S] = False
    return m


def recorder(P, log):
    """Block prox that records (sample, state before, state after, weights, step, blocks of the sample)."""

    def prox(x, i, indices, indptr, d, step_size):
        before = np.array(x)
        P.fun(x, i, indices, indptr, d, step_size)
        log.append((int(i), before, np.array(x), np.array(d), float(step_size), np.array(indices[indptr[i]: indptr[i + 1]])))

    return prox


def extended_support(ctx, c, P, log, info):
    """The blocks that the solver attributes to every sample: each once, covering the features of the sample; weights = n / number of samples."""
    T = {}
    for i, _, _, d, _, bl in log:
        key = tuple(int(h) for h in bl)
        if i in T:
            ctx.check(T[i][0] == key, "the blocks of a sample change along the run", sample=i, **info)
            continue
        ctx.check(len(set(key)) == len(key), "a block is listed twice for a sample", sample=i, blocks=key, **info)
        need = {h for h, r in enumerate(P.rows) if np.any(c["D"][i, r])}
        ctx.check(need <= set(key), "a block in the support of the sample is not listed", sample=i, blocks=key, needed=sorted(need), **info)
        # entries stored explicitly as zero may or may not count
        stored = sparse.csr_matrix(c["M"])
        st = set(stored.indices[stored.indptr[i]: stored.indptr[i + 1]].tolist())
        may = {h for h, r in enumerate(P.rows) if st & set(r)}
        ctx.check(set(key) <= may | need, "a block out of the support of the sample is listed", sample=i, blocks=key, allowed=sorted(may), **info)
        T[i] = (key, [j for h in key for j in P.rows[h]])
    if len(T) == c["n"]:
        cnt = np.zeros(len(P.rows))
        for i in T:
            cnt[list(T[i][0])] += 1
        d = log[0][3]
        ctx.check(d.shape == cnt.shape, "one weight per block", d=d, **info)
        on = cnt > 0
        ctx.check(np.allclose(d[on], c["n"] / cnt[on], rtol=1e-14, atol=0), "the block weights are not the inverse frequency of the blocks", d=d, counts=cnt, **info)
    return T


def replay(ctx, c, P, log, x0, step, ridge, method, info):
    """One reference step from every recorded state."""
    n, p, D, b, df = c["n"], c["p"], c["D"], c["b"], c["df"]
    T = extended_support(ctx, c, P, log, info)
    u = ref.EPS * 64 * (n + p + 4)
    mem = np.zeros(n)
    absD = np.abs(D)
    x = np.array(x0, float)
    d = log[0][3] if log else None
    dj = np.ones(p)
    if d is not None:
        for h, r in enumerate(P.rows):
            dj[r] = d[h]
    seen, order = 0, []
    base = None
    for k, (i, before, after, _, s, _) in enumerate(log):
        if k % n == 0:
            if k:
                ctx.check(sorted(order) == list(range(n)), "an epoch does not visit every sample once", order=order, **info)
            order = []
            ctx.count("epochs")
            if method == "svrg":
                snap = x.copy()
                zs = D.dot(snap)
                base = df(zs, b)
        order.append(i)
        ctx.check(s == step, "the proximal operator does not receive the step size requested", got=s, **info)
        S = T[i][1]
        z = D[i].dot(x)
        g = float(df(np.array([z]), b[i: i + 1])[0])
        old = mem[i] if method == "saga" else base[i]
        m = mem if method == "saga" else base
        avg = D.T.dot(m) / n
        v = (g - old) * D[i] + dj * (avg + ridge * x)
        e = x.copy()
        e[S] -= step * v[S]
        # uncertainty: the margin is rounded, then the derivative (1-Lipschitz losses) and the averages
        dz = u * (absD[i].dot(np.abs(x)) + 1)
        am = absD.T.dot(u * (np.abs(m) + np.abs(b) + absD.dot(np.abs(x) + (np.abs(snap) if method == "svrg" else 0)) + 1)) / n
        tol = u * np.abs(x) + step * ((2 * dz + u * (abs(g) + abs(old) + abs(b[i]) + 1)) * absD[i] + dj * (am * (1 + np.sqrt(k // n + 1)) + u * abs(ridge) * np.abs(x))) + 1e-300
        if c["fmt"] == "float32":
            pass
        bad = np.abs(before - e) > tol
        bad[outside(p, S)] = False
        ctx.check(not bad.any(), "the step does not follow the gradient estimate of the method", it=k, sample=i, before=before, expected=e, previous=x, estimate=v, support=S, **info)
        out = outside(p, S)
        ctx.check(before[out].tobytes() == x[out].tobytes() and after[out].tobytes() == x[out].tobytes(), "coefficients out of the support of the sample changed", it=k, sample=i, **info)
        ctx.count("steps replayed")
        if method == "saga":
            mem[i] = g
        x = after
    return x


def large_shape(rng):
    """Beyond the sizes of the other workloads: many features in a sample, many samples, many stored entries."""
    k = rng.randint(4)
    if k == 0:
        return 1 + rng.randint(6), 65 + rng.randint(100)
    if k == 1:
        return 1 + rng.randint(4), 257 + rng.randint(80)
    if k == 2:
        return 150 + rng.randint(150), 1 + rng.randint(4)
    return 1024 + rng.randint(100), 1 + rng.randint(3)


def wl_large(ctx, rng):
    if rng.rand() < 0.06:
        n = [850, 40][rng.randint(2)] + rng.randint(50)  # more entries than 2 ** 15
        shape = (n, 33000 // n + 2)
    elif rng.rand() < 0.04:
        shape = (2 + rng.randint(3), 32768 + rng.randint(100))  # more features than 2 ** 15
    else:
        shape = large_shape(rng)
    wl(ctx, rng, shape)
    ctx.count("large")


def check_orders(ctx, orders, info):
    """Epochs visit the samples in fresh random orders (12! or more of them: no repeats by chance)."""
    if len(orders) >= 2 and len(orders[0]) >= 12:
        same = [k for k in range(1, len(orders)) if orders[k] == orders[k - 1]]
        ctx.check(not same, "an epoch repeats the order of the one before", epochs=same, **info)
        ctx.count("consecutive orders")


def check_positions(ctx, orders, info):
    """Every sample is as likely at every position of an epoch."""
    n, E = len(orders[0]), len(orders)
    c = np.zeros((n, n))
    for o in orders:
        for k, i in enumerate(o):
            c[i, k] += 1
    q = E / n
    ctx.check(np.all(np.abs(c - q) <= 8 * np.sqrt(q) + 8), "some samples are visited at certain positions more often", counts=c, expected=q, **info)
    ctx.count("position counts")


def wl_orders(ctx, rng):
    method = ["saga", "svrg"][rng.randint(2)]
    n, p = 2 + rng.randint(6), 1 + rng.randint(2)
    D = rng.randn(n, p)
    b = rng.randn(n)
    log = []

    def prox(x, i, indices, indptr, d, step):
        log.append(int(i))

    E = 500
    np.random.seed(rng.randint(2 ** 31))
    SOLVERS[method](lambda q, y: q - y, D, b, np.zeros(p), 0.1 / (D ** 2).sum(1).max(), prox=prox, max_iter=E, tol=0)
    ctx.check(len(log) == E * n, "not max_iter passes over the data", calls=len(log))
    check_positions(ctx, [log[e * n: (e + 1) * n] for e in range(E)], dict(method=method, n=n))
    ctx.key(method, digest(np.array(log)))


def wl_long(ctx, rng):
    """Hundreds of epochs, every step replayed."""
    wl(ctx, rng, (1 + rng.randint(4), 1 + rng.randint(3)), epochs=150 + rng.randint(300))


def wl(ctx, rng, shape=None, epochs=None):
    method = ["saga", "svrg"][rng.randint(2)]
    c = build(ctx, rng, shape=shape)
    n, p = c["n"], c["p"]
    Lmax = (c["D"] ** 2).sum(1).max() * (0.25 if c["kind"] == "log" else 1) + 1e-12
    ridge = 0.0 if rng.rand() < 0.5 else float(Lmax * 10.0 ** rng.uniform(-3, 0))
    if ridge:
        ctx.count("ridge")
    P = Block(ctx, rng, p, Lmax)
    if len(P.rows) < p:
        ctx.count("shared blocks")
    step = float([1 / 3.0, 1.0, 0.1][rng.randint(3)] / (Lmax + ridge * n))
    x0 = rng.randn(p) * [0, 1, 3][rng.randint(3)]
    max_iter = 1 + rng.randint(8) if rng.rand() < 0.9 else 30
    if shape:
        max_iter = epochs or 1 + (rng.randint(3) if n * p < 5000 else 0)
    tol = [0.0, 1e-6, 1e-2, 1.0, 10.0][rng.randint(5)] if not epochs else 0.0
    log, cbs = [], []
    rec = recorder(P, log)

    def callback(dl):
        cbs.append((np.array(dl["x"]), len(log)))

    info = dict(method=method, n=n, p=p, fmt=c["fmt"], loss=c["kind"], ridge=ridge, penalty=P.which, beta=P.alpha, step=step, max_iter=max_iter, tol=tol, own_derivative=c["own"])
    seed = rng.randint(2 ** 31)
    chg = gen.freeze(c["M"], c["b"], x0)
    np.random.seed(seed)
    plain = len(P.rows) == p and rng.rand() < 0.3 and P.which in ("identity", "L1")
    if plain:
        ctx.count("plain callable prox")
    kw = dict(alpha=ridge, max_iter=max_iter, tol=tol)
    res = SOLVERS[method](c["f"], c["M"], c["b"], x0, step, prox=rec if plain else (rec, P.blocks), callback=callback, **kw)
    ctx.check(chg() is None, "%s modified its inputs" % method, mech="mutation", what=chg(), **info)
    ctx.count(method)
    x = np.array(res.x)
    ctx.check(x.shape == (p,) and np.isfinite(x).all(), "the solution is not finite", x=x, **info)
    # history: the callback sees the start and the end of every epoch
    ctx.check(len(cbs) >= 2 and np.array_equal(cbs[0][0], x0) and cbs[0][1] == 0, "the first callback does not see the starting point", **info)
    eps = len(cbs) - 1
    ctx.check([k for _, k in cbs] == [n * e for e in range(eps + 1)], "an epoch is not a pass over the data", positions=[k for _, k in cbs], **info)
    ctx.check(len(log) == n * eps, "steps after the last callback", **info)
    ctx.check(np.array_equal(cbs[-1][0], x), "the solution is not the last iterate", **info)
    ctx.check(res.nit == eps - 1, "nit is not the index of the last epoch", nit=res.nit, epochs=eps, **info)
    moves = [np.abs(cbs[e + 1][0] - cbs[e][0]).sum() for e in range(eps)]
    ok = [m < tol for m in moves]
    ctx.check(not any(ok[:-1]), "the solver went on although the tolerance was reached", moves=moves, **info)
    if res.success:
        ctx.count("success")
        ctx.check(abs(moves[-1] - tol) <= 1e-13 * (p + 1) * np.abs(x).sum() or ok[-1], "success although the last epoch moved more than tol", moves=moves, **info)
    else:
        ctx.count("max_iter reached")
        ctx.check(eps == max_iter, "stopped early without success", epochs=eps, **info)
        ctx.check(not ok[-1], "the tolerance was reached but success is not reported", moves=moves, **info)
    xr = replay(ctx, c, P, log, x0, step, ridge, method, info)
    ctx.check(np.array_equal(xr, x), "the solution is not the state after the last step", **info)
    for e in range(1, eps + 1):
        order = [log[k][0] for k in range(n * (e - 1), n * e)]
        ctx.check(sorted(order) == list(range(n)), "an epoch does not visit every sample once", order=order, **info)
    check_orders(ctx, [[l[0] for l in log[n * e: n * (e + 1)]] for e in range(eps)], info)
    if n >= 6 and eps >= 4:
        orders = {tuple(l[0] for l in log[n * e: n * (e + 1)]) for e in range(eps)}
        ctx.check(len(orders) > 1, "the samples are visited in the same order in every epoch", **info)
        ctx.count("random orders")
    # the block proximal operators themselves (C07) on the states of the run
    for i, before, after, d, s, bl in [log[k] for k in rng.randint(len(log), size=4)]:
        for h in bl if len(bl) < 500 else bl[rng.randint(len(bl), size=100)]:
            e = P.prox_block(before, h, s * d[h])
            ctx.check(np.all(np.abs(after[P.rows[h]] - e) <= 1e-12 * (np.abs(before).max() + P.alpha * s * d[h])), "the block prox is wrong on a state of the run", **info)
    if eps > 100:
        ctx.count("long runs")
    if max(moves) > 0:
        ctx.key(method, digest(*[l[1] for l in log[:20]], x))
    else:
        ctx.count("step size zero movement")
    if P.which == "identity" and rng.rand() < 0.7:
        # without a proximal operator: same random numbers, same history
        np.random.seed(seed)
        r2 = SOLVERS[method](c["f"], c["M"], c["b"], x0, step, **kw)
        ctx.check(np.array_equal(r2.x, x) and bool(r2.success) == bool(res.success), "the run without a proximal operator differs from the one with an identity", x=x, other=r2.x, **info)
        ctx.count("no prox")
    ctx.sample(**info)




def objective(c, P, ridge, x):
    z = c["D"].dot(x)
    if c["kind"] == "log":
        v = np.mean((1 - c["b"]) * z + np.logaddexp(0, -z))
    elif c["kind"] == "square":
        v = 0.5 * np.mean((z - c["b"]) ** 2)
    else:
        r = np.abs(z - c["b"])
        v = np.mean(r + np.log1p(np.exp(-2 * r)) - np.log(2))
    return v + 0.5 * ridge * x.dot(x) + P.value(x)


def solve(c, P, ridge, x0, iters=4000):
    """Independent solution (FISTA with restarts)."""
    D, n = c["D"], c["n"]
    L = np.linalg.norm(D, 2) ** 2 / n + ridge

    def fg(x):
        g = D.T.dot(c["df"](D.dot(x), c["b"])) / n + ridge * x
        return 0.0, g

    x, _ = prob.fista(fg, P.prox, L, x0, iters)
    return x


def wl_converge(ctx, rng):
    method = ["saga", "svrg"][rng.randint(2)]
    c = build(ctx, rng, 9, 6, strong=True)
    n, p = c["n"], c["p"]
    ridge = float(rng.uniform(0.2, 1))
    P = Block(ctx, rng, p, 0.3)
    cnt = np.array([sum(bool(np.any(c["D"][i, r])) for i in range(n)) for r in P.rows])
    dmax = n / max(1, cnt[cnt > 0].min())
    step = 1 / (3 * (1.0 + ridge * dmax))
    x0 = rng.randn(p)
    max_iter, tol = 400, [1e-10, 1e-8, 1e-5][rng.randint(3)]
    res = SOLVERS[method](c["f"], c["M"], c["b"], x0, step, prox=(P.fun, P.blocks), alpha=ridge, max_iter=max_iter, tol=tol)
    sol = solve(c, P, ridge, x0)
    ctx.count("converged")
    info = dict(method=method, n=n, p=p, fmt=c["fmt"], loss=c["kind"], ridge=ridge, penalty=P.which, beta=P.alpha, step=step, tol=tol)
    f32 = 1e-5 if c["fmt"] == "float32" else 0.0
    err = np.abs(res.x - sol).max()
    ctx.check(bool(res.success), "a strongly convex problem is not solved", error=err, **info)
    # movement of an epoch below tol: per epoch the distance contracts at least by 1 - n step ridge / 2
    rate = min(0.5, 0.25 * n * step * ridge)
    ctx.check(err <= 20 * np.sqrt(n) * tol / rate + 1e-9 * (1 + np.abs(sol).max()) + f32, "success is reported away from the solution", error=err, x=res.x, solution=sol, **info)
    ctx.count("success certified")
    ctx.key("conv", method, digest(np.array(res.x)))


WORKLOADS = [("history", wl, 6000, 80000), ("large", wl_large, 120, 1500, {"heavy": True}), ("long", wl_long, 40, 500, {"heavy": True}), ("orders", wl_orders, 8, 100), ("convergence", wl_converge, 160, 3000, {"heavy": True})]
