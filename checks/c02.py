"""C02: Hessian-vector products of the logistic loss."""
import numpy as np
import copt.loss
from checks import c01
from vlib import gen, ref
from vlib.core import digest, Skip

ID = "C02"
RULE = ("random (A storage, b, alpha, x, intercept, vectors s) cases; non-trivial: A, s nonzero; distinct by the "
        "digest of A, x, s and the options")
ASSUMPTIONS = ["numpy long double arithmetic of the reference; rounding-error bounds with a factor 8 margin"]
REQUIRED = ["products compared", "products with an intercept", "products with a penalty", "symmetry pairs", "other evaluations interleaved", "options changed", "large"]
SLACK = 8.0


def hess_ref(D, x, alpha, intercept, s, u):
    D, x, s = ref._ld(D), ref._ld(x), ref._ld(s)
    n, p = D.shape
    c = ref.LD(0)
    w = x
    if intercept:
        w, c = x[:-1], x[-1]
    z, zm = ref.margins(D, w, c)
    dz = (p + 4) * u * zm
    d = ref.sigma(z) * ref.sigma(-z)
    dd = d * np.expm1(np.minimum(dz, 40)) + 8 * u * ref.sigma(z)  # z(1-z) of a rounded sigmoid
    Ds = D.dot(s[:p]) + (s[p] if intercept else 0)
    Dm = np.abs(D).dot(np.abs(s[:p])) + (abs(s[p]) if intercept else 0)
    out = D.T.dot(d * Ds) / n + alpha * s[:p]
    err = np.abs(D).T.dot(dd * Dm + (p + n + 16) * u * d * Dm) / n + 8 * u * abs(alpha) * np.abs(s[:p])
    if intercept:
        out = np.append(out, (d * Ds).mean())
        err = np.append(err, (dd * Dm + (p + n + 16) * u * d * Dm).mean())
    return out, err, dz


def wl_products(ctx, rng):
    c = c01.build(rng, "log")
    u = c01.unit(c)
    x = c["x"]
    if rng.rand() < 0.15:
        # the same object with other options before
        L = c01.instance("log", dict(c, alpha=c["alpha"] + 1.5, intercept=False))
        y = rng.randn(c["p"])
        L.hessian_mv(y)(y), L.hessian_trace(y)(y), L.f_grad(y)
        L.alpha, L.intercept = c["alpha"], c["intercept"]
        ctx.count("options changed")
    else:
        L = c01.instance("log", c)
    attr = "hessian_mv" if rng.rand() < 0.6 else "hessian_trace"
    changed = gen.freeze(c["A"], c["b"], x)
    H = getattr(L, attr)(x)
    x_then = x.copy()
    info = dict(method=attr, fmt=c["fmt"], x=x_then, alpha=c["alpha"], intercept=c["intercept"], b=c["b"], n=c["n"], p=c["p"])
    # what the callable computes was fixed when it was made
    mutated = False
    if x.flags.writeable and rng.rand() < 0.3 and x.dtype.kind == "f":
        ctx.check(changed() is None, "making the Hessian operator modified its inputs", mech="mutation", **info)
        x *= -1.5
        x += 0.3
        mutated = True
    m = x.size
    S = []
    held = []
    for k in range(3):
        if rng.rand() < 0.3:
            # other uses of the same loss in between must not affect this operator
            y = np.array(x_then, dtype=float) * -0.7 + rng.randn(m)
            how = ["hessian_mv", "hessian_trace", "f_grad", "value"][rng.randint(4)]
            if how == "f_grad":
                L.f_grad(y)
            elif how == "value":
                L(y)
            else:
                other = getattr(L, how)(y)
                if rng.rand() < 0.5:
                    other(rng.randn(m))
            ctx.count("other evaluations interleaved")
        s, kind = gen.vec(rng, m)
        if rng.rand() < 0.2:
            s, kind = np.round(s * 3).clip(-1e6, 1e6).astype(int), "int"
        elif rng.rand() < 0.3:
            e = np.zeros(m)
            e[rng.randint(m)] = 1
            s, kind = e, "basis"
        s0 = s.copy()
        got = np.asarray(H(s))
        ctx.check(np.array_equal(s, s0), "the product modified its argument", mech="mutation", **info)
        exp, err, dz = hess_ref(c["D"], x_then.astype(float), c["alpha"], c["intercept"], s.astype(float), u)
        tiny = (1e-36 if u == ref.EPS32 else 1e-290) * (1 + float(np.abs(c["D"]).max()) ** 2) * (1 + float(np.abs(s).max()))
        if float(dz.max()) > 1:
            raise Skip
        ctx.check(got.shape == s.shape, "shape of the product", got=got.shape, **info)
        bad = ~(np.abs(ref._ld(got) - exp) <= SLACK * err + tiny)
        ctx.check(not bad.any(), "Hessian-vector product is wrong", s=s, got=got, expected=exp.astype(float), **info)
        ctx.count("products compared")
        if c["intercept"]:
            ctx.count("products with an intercept")
        if c["alpha"]:
            ctx.count("products with a penalty")
        held.append((got, got.copy()))
        S.append((s.astype(float), got, err))
        if np.any(s):
            ctx.key(attr, c["fmt"], digest(c["D"], x_then, s), c["alpha"], c["intercept"])
    ctx.check(all(np.array_equal(a, b, equal_nan=True) for a, b in held), "a product returned earlier was overwritten by a later one", **info)
    (s1, h1, e1), (s2, h2, e2) = S[0], S[1]
    a, b = s1.dot(h2), s2.dot(h1)
    tol = SLACK * float(np.abs(s1).dot(e2) + np.abs(s2).dot(e1)) + 64 * m * ref.EPS * (
        np.abs(s1).dot(np.abs(h2)) + np.abs(s2).dot(np.abs(h1)))
    ctx.check(abs(a - b) <= tol + 1e-290, "the Hessian is not symmetric", s1=s1, s2=s2, s1Hs2=a, s2Hs1=b, **info)
    ctx.check(s1.dot(h1) >= -tol - 1e-290 - 64 * m * ref.EPS * np.abs(s1).dot(np.abs(h1)) - SLACK * float(np.abs(s1).dot(e1)),
              "the Hessian is not positive semidefinite", s=s1, h=h1, **info)
    ctx.count("symmetry pairs")
    if not mutated:
        ctx.check(changed() is None, "the Hessian operator modified its inputs", mech="mutation", **info)
        # directional derivative of the gradient the same object reports
        if u == ref.EPS and c["lay"] != "int" and rng.rand() < 0.5:
            s = rng.randn(m)
            xx = np.array(x, dtype=float)
            zm = max(1.0, float(np.abs(c["D"]).sum(1).max()) * np.abs(s).max())
            h = 1e-5 / zm
            num = (L.f_grad(xx + h * s)[1] - L.f_grad(xx - h * s)[1]) / (2 * h)
            mag = np.abs(c["D"]).T.dot(np.abs(c["D"]).dot(np.abs(s[: c["p"]])) + abs(s[-1])) / c["n"]
            R = ref.loss_ref("log", c["D"], c["b"].astype(float), xx, c["alpha"], 1, c["intercept"])
            noise = float(R["dgrad"].max()) / h * 4
            got = H(s)
            lim = 1e-5 * (mag.max() + np.abs(got).max() + c["alpha"] * np.abs(s).max()) + noise + 1e-9
            ctx.check(np.all(np.abs(num - got) <= lim),
                      "Hessian products are not the derivative of the gradient", s=s, num=num, got=got, **info)
            ctx.count("finite differences of the gradient")
    ctx.sample(**info)


WORKLOADS = [("products", wl_products, 5000, 60000), ("large", gen.large(wl_products), 40, 400)]
