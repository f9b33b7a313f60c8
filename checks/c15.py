"""C15: variance-reduced three operator splitting."""
import numpy as np
import copt as cp
from scipy import sparse
from vlib import gen, prob, ref
from vlib.core import digest, Skip
from checks.c14 import outside, build, Block, recorder, extended_support, objective, large_shape, check_orders, check_positions

ID = "C15"
RULE = ("random (data storage, loss, ridge, two block penalties with different blocks, step, start): the calls of both block proximal operators give the history of the run, "
        "which is replayed against the reference recursion; non-trivial: the iterate moves; distinct by digest of the history")
ASSUMPTIONS = ["every feature appears in at least one sample", "steps before the first callback (one step that warms up the compiler) follow the same recursion",
               "the averaged iterate z is observed in the callback once per epoch and reconstructed in between"]
REQUIRED = ["steps replayed", "epochs", "no prox", "one prox", "plain callable prox", "different blocks", "ridge", "dense data", "sparse data", "duplicate entries", "converged", "certificates",
            "samples without features", "random orders", "fused lasso halves", "integer labels", "large", "consecutive orders", "position counts", "long runs"]


def two(ctx, rng, p, scale):
    c = rng.randint(6)
    if c == 0:  # the fused lasso split in its halves
        import copt.penalty as cpn
        P1, P2 = Block(ctx, rng, p, scale, "identity"), Block(ctx, rng, p, scale, "identity")
        for P, first in ((P1, 0), (P2, 1)):
            F = cpn.FusedLasso(P1.alpha)
            P.alpha = P1.alpha
            P.which = "FusedLasso half"
            P.fun, P.blocks = (F.prox_2_factory if first else F.prox_1_factory)(p)
            P.pen = [[j, j + 1] for j in range(first, p - 1, 2)]
            P.rows = [list(map(int, P.blocks.indices[P.blocks.indptr[k]: P.blocks.indptr[k + 1]])) for k in range(P.blocks.shape[0])]
        ctx.count("fused lasso halves")
        return P1, P2
    if c == 1 and rng.rand() < 0.4:
        return Block(ctx, rng, p, scale, "identity"), Block(ctx, rng, p, scale, "identity")
    return Block(ctx, rng, p, scale), Block(ctx, rng, p, scale)


def weights(P, log, p):
    d = log[0][3]
    dj = np.ones(p)
    for h, r in enumerate(P.rows):
        dj[r] = d[h]
    return dj


def wl_large(ctx, rng):
    wl(ctx, rng, large_shape(rng))
    ctx.count("large")


def wl_orders(ctx, rng):
    n, p = 2 + rng.randint(6), 1 + rng.randint(2)
    D = rng.randn(n, p)
    b = rng.randn(n)
    log, at = [], []

    def prox(x, i, indices, indptr, d, step):
        log.append(int(i))

    E = 500
    np.random.seed(rng.randint(2 ** 31))
    cp.minimize_vrtos(lambda q, y: q - y, D, b, np.zeros(p), 0.1 / (D ** 2).sum(1).max(), prox_1=prox, max_iter=E, callback=lambda dl: at.append(len(log)))
    ctx.check(len(log) == E * n + at[0], "not max_iter passes over the data", calls=len(log))
    check_positions(ctx, [log[at[e]: at[e + 1]] for e in range(E)], dict(n=n))
    ctx.key(digest(np.array(log)))


def wl_long(ctx, rng):
    """Hundreds of epochs, every step replayed."""
    wl(ctx, rng, (1 + rng.randint(4), 1 + rng.randint(3)), epochs=150 + rng.randint(300))
    ctx.count("long runs")


def wl(ctx, rng, shape=None, epochs=None):
    c = build(ctx, rng, shape=shape)
    n, p, D, b, df = c["n"], c["p"], c["D"], c["b"], c["df"]
    Lmax = (D ** 2).sum(1).max() * (0.25 if c["kind"] == "log" else 1) + 1e-12
    ridge = 0.0 if rng.rand() < 0.5 else float(Lmax * 10.0 ** rng.uniform(-3, 0))
    if ridge:
        ctx.count("ridge")
    P1, P2 = two(ctx, rng, p, Lmax)
    if P1.rows != P2.rows:
        ctx.count("different blocks")
    step = float([1 / 3.0, 1.0, 0.1][rng.randint(3)] / (Lmax + ridge * n))
    x0 = rng.randn(p) * [0, 1, 3][rng.randint(3)]
    max_iter = 1 + rng.randint(7) if rng.rand() < 0.9 else 25
    if shape:
        max_iter = epochs or 1 + (rng.randint(3) if n * p < 5000 else 0)
    log, cbs = [], []

    def tag(t, P):
        r = []
        f = recorder(P, r)

        def prox(*a):
            f(*a)
            log.append((t,) + r.pop())

        return prox

    def callback(dl):
        cbs.append((np.array(dl["z"]), len(log)))

    info = dict(n=n, p=p, fmt=c["fmt"], loss=c["kind"], ridge=ridge, pen1=P1.which, pen2=P2.which, beta=[P1.alpha, P2.alpha], step=step, max_iter=max_iter, own_derivative=c["own"])
    seed = rng.randint(2 ** 31)
    chg = gen.freeze(c["M"], c["b"], x0)
    np.random.seed(seed)
    pl1, pl2 = [len(P.rows) == p and rng.rand() < 0.4 and P.which in ("identity", "L1") for P in (P1, P2)]
    if pl1 or pl2:
        ctx.count("plain callable prox")
    q1, q2 = tag(1, P1), tag(2, P2)
    kw = dict(alpha=ridge, max_iter=max_iter)
    res = cp.minimize_vrtos(c["f"], c["M"], b, x0, step, prox_1=q1 if pl1 else (q1, P1.blocks), prox_2=q2 if pl2 else (q2, P2.blocks), callback=callback, **kw)
    ctx.check(chg() is None, "minimize_vrtos modified its inputs", mech="mutation", what=chg(), **info)
    x = np.array(res.x)
    ctx.check(x.shape == (p,) and np.isfinite(x).all(), "the solution is not finite", x=x, **info)
    ctx.check(np.array_equal(cbs[-1][0], x), "the solution is not the last iterate", **info)
    ctx.check(len(cbs) == max_iter + 1 and res.nit == max_iter - 1, "not max_iter passes over the data", nit=res.nit, callbacks=len(cbs), **info)
    pre = cbs[0][1] // 2
    ctx.check([k for _, k in cbs] == [2 * (pre + n * e) for e in range(max_iter + 1)] and len(log) == 2 * (pre + n * max_iter), "an epoch is not a pass over the data", positions=[k for _, k in cbs], **info)
    ctx.check([l[0] for l in log] == [1, 2] * (len(log) // 2) and all(log[k][1] == log[k + 1][1] for k in range(0, len(log), 2)), "the two proximal operators are not applied for every sample in turn", **info)
    l1, l2 = [l[1:] for l in log[0::2]], [l[1:] for l in log[1::2]]
    T1, T2 = extended_support(ctx, c, P1, l1, info), extended_support(ctx, c, P2, l2, info)
    # weights over all the samples also when the prefix is all that was seen of some
    d1, d2 = weights(P1, l1, p), weights(P2, l2, p)
    for e in range(max_iter):
        order = [l1[k][0] for k in range(pre + n * e, pre + n * (e + 1))]
        ctx.check(sorted(order) == list(range(n)), "an epoch does not visit every sample once", order=order, **info)
        ctx.count("epochs")
    check_orders(ctx, [[l[0] for l in l1[pre + n * e: pre + n * (e + 1)]] for e in range(max_iter)], info)
    if n >= 6 and max_iter >= 4:
        ctx.check(len({tuple(l1[k][0] for k in range(pre + n * e, pre + n * (e + 1))) for e in range(max_iter)}) > 1, "the samples are visited in the same order in every epoch", **info)
        ctx.count("random orders")
    # replay
    u = ref.EPS * 64 * (n + p + 4)
    z, Y1, Y2 = x0.astype(float), np.zeros(p), np.zeros(p)
    x1, x2 = x0.astype(float), x0.astype(float)
    mem = np.zeros(n)
    absD = np.abs(D)
    scale = np.abs(x0).max() + 1e-300
    acc = np.zeros(p)  # accumulated uncertainty on z and Y
    for k in range(len(l1)):
        i, before1, after1, _, s1, _ = l1[k]
        _, before2, after2, _, s2, _ = l2[k]
        ctx.check(s1 == step and s2 == step, "the proximal operators do not receive the step size requested", **info)
        zi = D[i].dot(z)
        g = float(df(np.array([zi]), b[i: i + 1])[0])
        avg = D.T.dot(mem) / n
        dz = u * (absD[i].dot(np.abs(z)) + 1) + absD[i].dot(acc)
        am = absD.T.dot(u * (np.abs(mem) + np.abs(b) + absD.dot(np.abs(z)) + 1) + absD.dot(acc)) / n * (2 + np.sqrt(k // n + 1))
        for (S, dj, xx, Y, before, nm) in ((T1[i][1], d1, x1, Y1, before1, "first"), (T2[i][1], d2, x2, Y2, before2, "second")):
            est = (g - mem[i]) * D[i] + dj * (avg + ridge * z)
            e = xx.copy()
            e[S] = 2 * z[S] - Y[S] - step / 2 * est[S]
            tol = 4 * acc + u * (np.abs(z) + np.abs(Y)) + step * ((dz + u * (abs(g) + abs(mem[i]) + abs(b[i]) + 1)) * absD[i] + dj * (am + abs(ridge) * (acc + u * np.abs(z)))) + 1e-300
            bad = np.abs(before - e) > tol
            bad[outside(p, S)] = False
            ctx.check(not bad.any(), "the step does not follow the recursion of the method", which=nm, it=k, sample=i, before=before, expected=e, tolerance=tol, support=S, **info)
            out = outside(p, S)
            ctx.check(before[out].tobytes() == xx[out].tobytes(), "coefficients out of the support of the sample changed", which=nm, it=k, sample=i, **info)
        S1, S2 = T1[i][1], T2[i][1]
        x1, x2 = after1, after2
        Y1[S1] += x1[S1] - z[S1]
        Y2[S2] += x2[S2] - z[S2]
        S = np.flatnonzero(~outside(p, S1) | ~outside(p, S2))
        w1, w2 = 1 / d1, 1 / d2
        z = z.copy()
        z[S] = ((w1 * Y1 + w2 * Y2) / (w1 + w2))[S]
        mem[i] = g
        acc[S] += 4 * ref.EPS * (np.abs(Y1) + np.abs(Y2) + np.abs(z) + np.abs(x1) + np.abs(x2))[S]
        ctx.count("steps replayed")
        if k + 1 >= pre and (k + 1 - pre) % n == 0:
            zc = cbs[(k + 1 - pre) // n][0]
            ctx.check(np.all(np.abs(zc - z) <= 4 * acc + u * np.abs(z) + 1e-300), "the averaged iterate does not follow the recursion of the method", it=k, got=zc, expected=z, tolerance=acc, **info)
            z = zc.copy()
    cert = np.linalg.norm(x1 - z) + np.linalg.norm(x2 - z)
    ctx.check(abs(res.certificate - cert) <= 1e-12 * (cert + np.linalg.norm(z)), "the certificate is not the distance between the iterates", certificate=res.certificate, expected=cert, **info)
    ctx.count("certificates")
    ctx.key(digest(*[l[1] for l in l1[:20]], x))
    w = rng.randint(3)
    if w < 2 and (P1.which == "identity" or P2.which == "identity"):
        np.random.seed(seed)
        a1 = None if P1.which == "identity" else (P1.fun, P1.blocks)
        a2 = None if P2.which == "identity" else (P2.fun, P2.blocks)
        r2 = cp.minimize_vrtos(c["f"], c["M"], b, x0, step, prox_1=a1, prox_2=a2, **kw)
        ctx.check(np.array_equal(r2.x, x), "the run without a proximal operator differs from the one with an identity", x=x, other=r2.x, **info)
        ctx.count("no prox" if a1 is None and a2 is None else "one prox")
    ctx.sample(**info)


def wl_converge(ctx, rng):
    c = build(ctx, rng, 8, 6, strong=True)
    n, p, D, b = c["n"], c["p"], c["D"], c["b"]
    ridge = float(rng.uniform(0.3, 1))
    P1, P2 = two(ctx, rng, p, 0.3)
    dmax = 1
    for P in (P1, P2):
        cnt = np.array([sum(bool(np.any(D[i, r])) for i in range(n)) for r in P.rows])
        dmax = max(dmax, n / max(1, cnt[cnt > 0].min()))
    step = 1 / (3 * (1.0 + ridge * dmax))
    x0 = rng.randn(p)
    res = cp.minimize_vrtos(c["f"], c["M"], b, x0, step, prox_1=(P1.fun, P1.blocks), prox_2=(P2.fun, P2.blocks), alpha=ridge, max_iter=350)
    # independent Davis-Yin iteration
    L = np.linalg.norm(D, 2) ** 2 / n + ridge
    y = x0.copy()
    for _ in range(4000):
        w = P2.prox(y, 1 / L)
        g = D.T.dot(c["df"](D.dot(w), b)) / n + ridge * w
        v = P1.prox(2 * w - y - g / L, 1 / L)
        y = y + v - w
        if np.abs(v - w).max() < 1e-15:
            break
    info = dict(n=n, p=p, fmt=c["fmt"], loss=c["kind"], ridge=ridge, pen1=P1.which, pen2=P2.which, beta=[P1.alpha, P2.alpha], step=step)
    err = np.abs(res.x - w).max()
    f32 = 1e-5 if c["fmt"] == "float32" else 0.0
    ctx.check(err <= 1e-5 + f32, "a strongly convex problem is not solved", error=err, certificate=res.certificate, x=res.x, solution=w, **info)
    ctx.check(res.certificate <= 1e-4, "the certificate does not vanish at the solution", certificate=res.certificate, error=err, **info)
    ctx.count("converged")
    ctx.key("conv", digest(np.array(res.x)))


WORKLOADS = [("history", wl, 4000, 60000), ("large", wl_large, 100, 1400, {"heavy": True}), ("long", wl_long, 30, 400, {"heavy": True}), ("orders", wl_orders, 6, 80), ("convergence", wl_converge, 120, 2500, {"heavy": True})]
