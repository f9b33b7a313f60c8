"""C03: Lipschitz constants reported by the losses."""
import numpy as np
from scipy import sparse
import copt.loss
import copt.utils
from checks import c01
from vlib import gen, ref
from vlib.core import digest, Skip

ID = "C03"
RULE = ("random (loss, A storage, alpha) with pairs of points; non-trivial: A nonzero; distinct by the digest of A "
        "and the options")
ASSUMPTIONS = ["singular values by dense LAPACK SVD, relative accuracy 1e-6 for the constants",
               "LogLoss without intercept (with one, the constant of the documentation does not cover it)",
               "A is not identically zero"]
REQUIRED = ["lipschitz compared", "max_lipschitz compared", "gradient pairs", "tight directions", "integer data", "penalty changed", "data changed in place", "large", "extreme scales"]


def wl_lipschitz(ctx, rng):
    kind = ["log", "square", "huber"][rng.randint(3)]
    n, p = gen.size(rng, 0.05), gen.size(rng, 0.05)
    if gen.FORCED:
        n, p = (n, 1 + rng.randint(4)) if rng.rand() < 0.6 else (1 + rng.randint(4), p)
    while n * p > 40000 and not gen.FORCED:
        n, p = gen.size(rng, 0.05), gen.size(rng, 0.05)
    A0, ak = gen.dense_matrix(rng, n, p)
    if ak == "badscale" and rng.rand() < 0.5:
        A0 = A0 * 1e3
    allow = None
    if rng.rand() < 0.1:
        A0 = A0 * 10.0 ** rng.uniform(-60, 60)
        allow = [f for f in gen.DENSE + gen.SPARSE if "32" not in f]  # out of the range of single precision
        ctx.count("extreme scales")
    if rng.rand() < 0.2:
        # integers of every width, up to the largest values they hold
        dt = [np.int8, np.uint8, np.int16, np.uint16, np.int32, np.int64, np.uint32][rng.randint(7)]
        hi = min(np.iinfo(dt).max, 10 ** (1 + rng.randint(7)))
        D = np.clip(np.round(A0 / (np.abs(A0).max() or 1) * hi), max(np.iinfo(dt).min, -hi), hi)
        if not D.any():
            D[0, 0] = 1
        f = ["csr", "csc", "coo", "lil"][rng.randint(4)]
        A, fmt = (D.astype(dt), "dense") if rng.rand() < 0.6 else (getattr(sparse, f + "_matrix")(D).astype(dt), f)
        fmt += " " + dt.__name__
        ctx.count("integer data")
    else:
        A, fmt, D = gen.as_format(rng, A0, allow=allow)
    if kind != "huber" and rng.rand() < 0.04 and not gen.FORCED:
        A, fmt, D, p = None, "None", np.eye(n), n
    b = c01.make_b(rng, kind, n, D.sum(1))
    alpha = [0.0, 1.0, 1e-3, 7.0, float(10.0 ** rng.uniform(-20, 20))][rng.randint(5)]
    L = (copt.loss.HuberLoss(A, b, alpha=alpha, delta=0.5 + rng.rand()) if kind == "huber"
         else c01.KINDS[kind](A, b, alpha=alpha))
    if rng.rand() < 0.2:
        # the same object with another penalty before
        L.alpha = alpha + 2.5
        L.lipschitz
        if kind != "huber":
            L.max_lipschitz
        L.alpha = alpha
        ctx.count("penalty changed")
    if isinstance(A, np.ndarray) and A.dtype.kind == "f" and A.flags.writeable and rng.rand() < 0.3:
        # or other data in the same array
        keep = A.copy()
        A *= 3
        A[0] = 1.0
        L.lipschitz
        if kind != "huber":
            L.max_lipschitz
        A[:] = keep
        ctx.count("data changed in place")
    q = 0.25 if kind == "log" else 1.0
    s1 = np.linalg.svd(D, compute_uv=False)[0]
    true = q * s1 ** 2 / n + alpha
    tol = 2e-5 if (A is not None and A.dtype == np.float32) else 1e-7
    changed = gen.freeze(A, b)
    got = L.lipschitz
    info = dict(loss=kind, fmt=fmt, n=n, p=p, alpha=alpha)
    ctx.check(np.ndim(got) == 0 and abs(got - true) <= tol * true, "lipschitz is not the Lipschitz constant of the gradient bound",
              got=got, expected=true, **info)
    ctx.count("lipschitz compared")
    if kind != "huber":
        rows = (D ** 2).sum(1).max()
        m_true = q * rows + alpha
        got_m = L.max_lipschitz
        ctx.check(abs(got_m - m_true) <= tol * m_true, "max_lipschitz is not the largest constant of a single sample",
                  got=got_m, expected=m_true, **info)
        ctx.count("max_lipschitz compared")
        if kind == "log":
            g2 = copt.utils.get_max_lipschitz(A if A is not None else sparse.eye(n).tocsr(), "logloss", alpha)
            ctx.check(abs(g2 - m_true) <= tol * m_true, "get_max_lipschitz differs", got=g2, expected=m_true, **info)
    ctx.check(changed() is None, "computing the constants modified the data", mech="mutation", **info)
    ctx.key(kind, fmt, digest(D), alpha)
    ctx.sample(**info)
    # observed on the gradients themselves: |grad(x) - grad(y)| <= L |x - y|
    if D.shape[1] > 300:
        return
    _, _, Vt = np.linalg.svd(D, full_matrices=False)
    for k in range(3):
        x = rng.randn(p) * 10.0 ** rng.randint(-3, 2)
        d = Vt[0] * (1 if rng.rand() < 0.5 else 1e-2) if k == 0 else rng.randn(p) * 10.0 ** rng.randint(-3, 2)
        if k == 0:
            x = np.zeros(p)
        y = x + d
        gx, gy = L.f_grad(x)[1], L.f_grad(y)[1]
        R = ref.loss_ref(kind, D, b.astype(float), y, alpha, getattr(L, "delta", 1.0),
                         False, ref.EPS32 if (A is not None and A.dtype == np.float32) else ref.EPS)
        R0 = ref.loss_ref(kind, D, b.astype(float), x, alpha, getattr(L, "delta", 1.0),
                          False, ref.EPS32 if (A is not None and A.dtype == np.float32) else ref.EPS)
        noise = 8 * float(np.linalg.norm((R["dgrad"] + R0["dgrad"]).astype(float)))
        lhs = np.linalg.norm(gx - gy)
        ctx.check(lhs <= got * np.linalg.norm(y - x) * (1 + 1e-6) + noise,
                  "the gradient varies faster than lipschitz allows", lhs=lhs, rhs=got * np.linalg.norm(d), x=x, y=y, **info)
        ctx.count("gradient pairs")
        if k == 0 and kind == "square":
            ctx.check(lhs >= got * np.linalg.norm(d) * (1 - 1e-4) - noise, "lipschitz is not tight for the square loss",
                      lhs=lhs, rhs=got * np.linalg.norm(d), **info)
            ctx.count("tight directions")


WORKLOADS = [("lipschitz", wl_lipschitz, 5000, 40000), ("large", gen.large(wl_lipschitz), 40, 400)]
