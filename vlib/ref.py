"""Independent reference semantics, written from the documentation."""
import numpy as np

LD = np.longdouble
EPS = np.finfo(float).eps
EPS32 = float(np.finfo(np.float32).eps)


def _ld(a):
    return np.asarray(a, dtype=LD)


def softplus(t):
    """log(1 + exp(t)), no overflow, long double."""
    t = _ld(t)
    return np.maximum(t, 0) + np.log1p(np.exp(-np.abs(t)))


def sigma(t):
    t = _ld(t)
    e = np.exp(-np.abs(t))
    return np.where(t >= 0, 1 / (1 + e), e / (1 + e))


def margins(A, x, c=0.0):
    """A x + c and the magnitude of the terms summed."""
    A, x = _ld(A), _ld(x)
    return A.dot(x) + LD(c), np.abs(A).dot(np.abs(x)) + abs(LD(c))


def loss_ref(kind, A, b, x, alpha, delta=1.0, intercept=False, u=EPS):
    """Value, gradient and bounds of the rounding errors of both, at unit roundoff u.

    A, b, x: float64 values actually held by the inputs."""
    A, b = _ld(A), _ld(b)
    n, p = A.shape
    x = _ld(x)
    c = LD(0)
    if intercept:
        x, c = x[:-1], x[-1]
    z, zmag = margins(A, x, c)
    dz = (p + 4) * u * zmag  # error of a computed margin
    if kind == "log":
        s, sm = sigma(z), sigma(-z)
        terms = (1 - b) * z + softplus(-z)
        tmag = np.abs((1 - b) * z) + softplus(-z)
        r = s - b
        # written without cancellation: (1-b) s - b (1-s)
        r = (1 - b) * s - b * sm
        rmag = np.abs(1 - b) * s + np.abs(b) * sm
        dterm = np.abs(r) * dz + s * sm * dz * dz
        dr = s * sm * dz * np.exp(np.minimum(dz, 50)) + 16 * u * rmag * (1 + 0)
    else:
        r0 = z - b
        dz = dz + u * (zmag + np.abs(b))
        if kind == "square":
            terms = r0 * r0 / 2
            r = r0
        else:
            d = LD(delta)
            small = np.abs(r0) < d
            terms = np.where(small, r0 * r0 / 2, d * (np.abs(r0) - d / 2))
            r = np.where(small, r0, d * np.sign(r0))
        rmag = np.abs(r)
        tmag = np.abs(terms) + (LD(delta) * (np.abs(r0) + LD(delta)) if kind == "huber" else 0)
        dterm = rmag * dz + dz * dz
        dr = dz + 4 * u * rmag
    val = terms.mean() + LD(alpha) / 2 * (x * x).sum()
    dval = (dterm + (n + 16) * u * tmag).mean() + (p + 8) * u * abs(LD(alpha)) / 2 * (x * x).sum()
    g = A.T.dot(r) / n + LD(alpha) * x
    dg = np.abs(A).T.dot(dr + (n + 8) * u * rmag) / n + 8 * u * abs(LD(alpha)) * np.abs(x)
    if intercept:
        g = np.append(g, r.mean())
        dg = np.append(dg, (dr + (n + 8) * u * rmag).mean())
    return dict(val=val, dval=dval, grad=g, dgrad=dg, r=r, dr=dr, z=z, s=sigma(z))


def soft(x, t):
    return np.sign(x) * np.maximum(np.abs(x) - t, 0)


def l1_project(v, s):
    """Exact projection on the l1 ball, by bisection on the multiplier in long double."""
    v = _ld(v)
    if np.abs(v).sum() <= s:
        return v
    w = simplex_project(np.abs(v), s)
    return w * np.sign(v)


def simplex_project(v, s):
    v = _ld(v)
    u = np.sort(v)[::-1]
    css = np.cumsum(u)
    k = np.arange(1, v.size + 1)
    th = (css - LD(s)) / k
    rho = np.nonzero(u > th)[0][-1]
    return np.maximum(v - th[rho], 0)


def tv1d(x):
    return np.abs(np.diff(x)).sum()


def tv1d_kkt(w, p, t):
    """Largest violation of the optimality conditions of p = prox of t*TV at w.

    With u_k = sum_{i<=k} (w_i - p_i): |u_k| <= t, u_n = 0 and u_k = t sign(p_{k+1}-p_k)
    wherever p jumps; returns (violation of bound, of the end, of complementarity)."""
    w, p = _ld(w), _ld(p)
    u = np.cumsum(w - p)
    end = abs(u[-1])
    u = u[:-1]
    j = np.diff(p)
    bound = np.maximum(np.abs(u) - t, 0).max() if u.size else LD(0)
    # complementarity: t|j| + ... >= 0.  dual gap form: sum t|j| - u*(-j)
    # w - p = D^T y with y = -u (D = forward difference), need y_k = t sign(j_k)
    gap = (t * np.abs(j) + u * j)  # >= 0 when |u| <= t, zero at the optimum
    return bound, end, gap
