"""Random optimisation problems with known constants, and recorders put at the API boundary."""
import numpy as np
from scipy import sparse

from vlib import gen, ref

EPS = np.finfo(float).eps


class Smooth:
    """f(x) = mean_i phi(a_i.x, b_i) + alpha/2 ||x||^2, evaluated with numpy alone."""

    def __init__(self, rng, n, m=None, kind=None, ridge=None, scale=None):
        self.n = n
        m = m or 1 + rng.randint(2 * n + 8)
        A, ak = gen.dense_matrix(rng, m, n, ["normal", "sparse", "lowrank", "binary", "ties", "zerocol"][rng.randint(6)])
        s = np.linalg.svd(A, compute_uv=False)[0]
        target = scale if scale is not None else 10.0 ** rng.uniform(-1, 1)
        A = A * np.sqrt(m * target) / s  # so that ||A||^2 / m = target
        self.A, self.m = A, m
        self.kind = kind or ["square", "square", "log", "huber"][rng.randint(4)]
        self.alpha = (0.0 if rng.rand() < 0.4 else target * 10.0 ** rng.uniform(-3, 0)) if ridge is None else ridge
        xt = rng.randn(n) * (rng.rand(n) < 0.5)
        z = A.dot(xt)
        if self.kind == "log":
            self.b = (z + 0.3 * rng.randn(m) > 0).astype(float)
            curv = 0.25
        else:
            self.b = z + 0.1 * rng.randn(m)
            curv = 1.0
        self.delta = 1.0
        sv = np.linalg.svd(A, compute_uv=False)
        self.L = curv * sv[0] ** 2 / m + self.alpha
        smin = sv[-1] if m >= n and len(sv) == n else 0.0
        self.mu = self.alpha + (smin ** 2 / m if self.kind == "square" else 0.0)
        self.name = "%s(%dx%d,%s)" % (self.kind, m, n, ak)
        self.calls = 0

    def f(self, x):
        x = np.asarray(x, float)
        z = self.A.dot(x)
        if self.kind == "log":
            v = np.mean((1 - self.b) * z + np.logaddexp(0, -z))
        elif self.kind == "square":
            v = 0.5 * np.mean((z - self.b) ** 2)
        else:
            r = np.abs(z - self.b)
            v = np.mean(np.where(r < self.delta, r * r / 2, self.delta * (r - self.delta / 2)))
        return float(v + 0.5 * self.alpha * x.dot(x))

    def grad(self, x):
        x = np.asarray(x, float)
        z = self.A.dot(x)
        if self.kind == "log":
            s = np.where(z >= 0, 1 / (1 + np.exp(-np.abs(z))), np.exp(-np.abs(z)) / (1 + np.exp(-np.abs(z))))
            r = s - self.b
        elif self.kind == "square":
            r = z - self.b
        else:
            r = np.clip(z - self.b, -self.delta, self.delta)
        return self.A.T.dot(r) / self.m + self.alpha * x

    def f_grad(self, x):
        return self.f(x), self.grad(x)

    def copt_loss(self):
        """The same function as a loss of the package."""
        import copt.loss as cl
        if self.kind == "log":
            return cl.LogLoss(self.A, self.b, self.alpha)
        if self.kind == "square":
            return cl.SquareLoss(self.A, self.b, self.alpha)
        return cl.HuberLoss(self.A, self.b, self.alpha, self.delta)


class Recorder:
    """Log of the evaluations of f and its gradient, with what they returned."""

    def __init__(self, S):
        self.S = S
        self.log = []  # (kind, x copy, value)

    def f(self, x, *args):
        v = self.S.f(x)
        self.log.append(("f", np.array(x), v))
        return v

    def jac(self, x, *args):
        g = self.S.grad(x)
        self.log.append(("g", np.array(x), g.copy()))
        return g

    def f_grad(self, x, *args):
        v, g = self.S.f_grad(x)
        self.log.append(("fg", np.array(x), v))
        return v, g

    def n(self):
        return len(self.log)

    def api(self, rng, mode=None):
        """(fun, jac argument) for the solvers"""
        mode = mode or ["true", "callable", "true"][rng.randint(3)]
        if mode == "true":
            return self.f_grad, True
        if mode == "callable":
            return self.f, self.jac
        return self.f, ["2-point", False][rng.randint(2)]


class Domain:
    """A constraint set: the object of the package, and an independent description."""

    def __init__(self, rng, n, which=None):
        import copt.constraint as cc
        which = which or ["l1", "l1", "simplex", "trace", "box"][rng.randint(5)]
        if which == "trace":
            r = [d for d in range(1, n + 1) if n % d == 0]
            m = r[rng.randint(len(r))]
            self.shape = (m, n // m)
        self.which, self.n = which, n
        self.radius = float([1.0, 0.3, 2.0, 10.0 ** rng.uniform(-1, 1)][rng.randint(4)])
        a = self.radius
        if which == "l1":
            self.obj, self.diam = cc.L1Ball(a), 2 * a
        elif which == "simplex":
            self.obj, self.diam = cc.SimplexConstraint(a), np.sqrt(2) * a
        elif which == "trace":
            self.obj, self.diam = cc.TraceBall(a, self.shape), 2 * a
        else:
            self.obj, self.diam = self, 2 * a * np.sqrt(n)
        self.name = "%s(%g)" % (which, a)

    # the box is a set written by the user
    def lmo(self, u, x, active_set=None):
        return self.radius * np.sign(u) - x, None, None, 1.0

    def prox(self, x, step_size=None):
        return np.clip(x, -self.radius, self.radius)

    def support(self, u):
        a = self.radius
        if self.which == "l1":
            return a * np.abs(u).max()
        if self.which == "simplex":
            return a * u.max()
        if self.which == "trace":
            return a * np.linalg.svd(u.reshape(self.shape), compute_uv=False)[0]
        return a * np.abs(u).sum()

    def gap(self, x, g):
        return float(self.support(-g) + g.dot(x))

    def violation(self, x):
        a = self.radius
        if self.which == "l1":
            return np.abs(x).sum() - a
        if self.which == "simplex":
            return max(-x.min(), abs(x.sum() - a))
        if self.which == "trace":
            return np.linalg.svd(x.reshape(self.shape), compute_uv=False).sum() - a
        return np.abs(x).max() - a

    def project(self, v):
        a = self.radius
        if self.which == "box":
            return np.clip(v, -a, a)
        if self.which == "simplex":
            return proj_simplex(v, a)
        if self.which == "l1":
            return v if np.abs(v).sum() <= a else np.sign(v) * proj_simplex(np.abs(v), a)
        U, s, V = np.linalg.svd(v.reshape(self.shape), full_matrices=False)
        if s.sum() > a:
            s = proj_simplex(s, a)
        return (U * s).dot(V).ravel()

    def start(self, rng):
        c = rng.randint(3)
        n, a = self.n, self.radius
        if self.which == "simplex":
            if c == 0:
                x = np.zeros(n)
                x[rng.randint(n)] = a
                return x
            return a * rng.dirichlet(np.ones(n)) if c == 1 else np.full(n, a / n)
        if c == 0:
            return np.zeros(n)
        x = self.project(rng.randn(n) * a * [0.1, 3][rng.randint(2)])
        return x * (1 - 1e-12)


def proj_simplex(v, s):
    u = np.sort(v)[::-1]
    css = np.cumsum(u) - s
    k = np.arange(1, v.size + 1)
    th = css / k
    rho = np.nonzero(u > th)[0]
    rho = rho[-1] if rho.size else 0
    return np.maximum(v - th[rho], 0)


def fista(f_grad, prox, L, x0, iters, value=None):
    """Reference composite solver (own code): returns the best point seen and its objective."""
    x = y = np.array(x0, float)
    t = 1.0
    best, bx = np.inf, x
    fx_old = np.inf
    for k in range(iters):
        f, g = f_grad(y)
        xn = prox(y - g / L, 1 / L)
        tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
        if (y - xn).dot(xn - x) > 0:  # restart
            y, tn = xn, 1.0
        else:
            y = xn + (t - 1) / tn * (xn - x)
        done = np.abs(xn - x).max() <= 1e-15 * (1 + np.abs(x).max()) and k > 5
        x, t = xn, tn
        if done:
            break
    v = f_grad(x)[0] + (value(x) if value else 0.0)
    return x, v


def tv1d_prox(w, t):
    """prox of t * TV, taut string by dynamic programming on the dual (own code, O(n^2) worst case)."""
    n = w.size
    if n <= 1 or t <= 0:
        return w.copy()
    # taut string through the tube [cumsum - t, cumsum + t]
    r = np.concatenate(([0.0], np.cumsum(w)))
    lo, hi = r - t, r + t
    lo[0] = hi[0] = 0.0
    lo[n] = hi[n] = r[n]
    out = np.empty(n)
    i, y = 0, 0.0
    while i < n:
        # longest straight piece from (i, y)
        smax, smin = np.inf, -np.inf
        jmax = jmin = i + 1
        j = i + 1
        while True:
            a, b = (lo[j] - y) / (j - i), (hi[j] - y) / (j - i)
            if b < smin:  # the upper boundary forces the string down: touch the lower one at jmin
                k, s = jmin, smin
                break
            if a > smax:
                k, s = jmax, smax
                break
            if a >= smin:
                smin, jmin = a, j
            if b <= smax:
                smax, jmax = b, j
            if j == n:
                k, s = n, (r[n] - y) / (n - i)
                break
            j += 1
        out[i:k] = s
        y = y + s * (k - i)
        if k < n:
            # stay exactly on the boundary touched
            y = lo[k] if abs(y - lo[k]) < abs(y - hi[k]) else hi[k]
        i = k
    return out


class Pen:
    """A nonsmooth term: the object of the package and an independent description."""

    KINDS = ["none", "l1", "l1", "group", "l2ball", "linfball", "l1ball", "simplex", "tv"]

    def __init__(self, rng, n, which=None, scale=1.0):
        import copt.constraint as cc
        import copt.penalty as cpn
        which = which or self.KINDS[rng.randint(len(self.KINDS))]
        self.which, self.n = which, n
        a = self.a = float(scale * 10.0 ** rng.uniform(-3, 0.3))
        self.ball = which in ("l2ball", "linfball", "l1ball", "simplex")
        if self.ball:
            a = self.a = float([1.0, 0.5, 2.0, 10.0 ** rng.uniform(-1, 1)][rng.randint(4)])
        if which == "none":
            self.obj = None
        elif which == "l1":
            self.obj = cpn.L1Norm(a)
        elif which == "group":
            from checks.c04 import make_groups
            self.groups = make_groups(rng, n)
            self.obj = cpn.GroupL1(a, self.groups)
        elif which == "tv":
            self.obj = cpn.FusedLasso(a)
        elif which == "l2ball":
            self.obj = cc.L2Ball(a)
        elif which == "linfball":
            self.obj = cc.LinfBall(a)
        elif which == "l1ball":
            self.obj = cc.L1Ball(a)
        else:
            self.obj = cc.SimplexConstraint(a)
        self.name = "%s(%.3g)" % (which, a)

    def prox(self, v, t):
        a, w = self.a, self.which
        if w == "none":
            return v
        if w == "l1":
            return np.sign(v) * np.maximum(np.abs(v) - a * t, 0)
        if w == "group":
            o = v.copy()
            for g in self.groups:
                g = np.asarray(g)
                nr = np.linalg.norm(v[g])
                o[g] = v[g] * max(1 - a * t / nr, 0) if nr > 0 else 0
            return o
        if w == "tv":
            return tv1d_prox(v, a * t)
        if w == "l2ball":
            nr = np.linalg.norm(v)
            return v if nr <= a else v * (a / nr)
        if w == "linfball":
            return np.clip(v, -a, a)
        if w == "simplex":
            return proj_simplex(v, a)
        return v if np.abs(v).sum() <= a else np.sign(v) * proj_simplex(np.abs(v), a)

    def value(self, x):
        """Value of the penalty (0 for a constraint)."""
        if self.which == "l1":
            return self.a * np.abs(x).sum()
        if self.which == "group":
            return self.a * sum(np.linalg.norm(x[np.asarray(g)]) for g in self.groups)
        if self.which == "tv":
            return self.a * np.abs(np.diff(x)).sum()
        return 0.0

    def violation(self, x):
        a = self.a
        if self.which == "l2ball":
            return np.linalg.norm(x) - a
        if self.which == "linfball":
            return np.abs(x).max() - a
        if self.which == "l1ball":
            return np.abs(x).sum() - a
        if self.which == "simplex":
            return max(-x.min(), abs(x.sum() - a))
        return -np.inf
