"""One random call of any solver of the package, built from its own losses, penalties and constraints.

A Run can be executed many times with fresh or shared objects, with any of its user functions wrapped."""
import numpy as np
from scipy import sparse

from vlib import gen

SOLVERS = ["fw", "fwp", "pg", "apg", "tos", "pd", "saga", "svrg", "vrtos", "sfw"]
RANDOM = {"saga", "svrg", "vrtos", "sfw"}          # use the global generator of numpy
HONOURS_FALSE = {"fw", "fwp", "pg", "apg", "tos", "pd"}
FINAL_SHOWN = {"fw", "fwp", "tos", "saga", "svrg", "vrtos", "sfw"}  # the last callback receives the solution
DENSE_OK = ["C", "F", "readonly", "csr", "csc", "coo", "csr_unsorted", "csr_dup", "stridedcols", "lil"]


class Objects:
    """The user objects of one run."""


class Run:
    def __init__(self, rng, name=None, n=None, p=None, fmt=None, kind=None, max_iter=None, numpy_only=False, formats=None, simple=False):
        import copt.constraint as cc
        import copt.loss as cl
        import copt.penalty as cpn

        self.name = name = name or SOLVERS[rng.randint(len(SOLVERS))]
        self.n = n = n or 2 + rng.randint(8)
        self.p = p = p or 1 + rng.randint(8)
        A, _ = gen.dense_matrix(rng, n, p, ["normal", "sparse", "ties"][rng.randint(3)])
        for j in range(p):
            if not A[:, j].any():
                A[rng.randint(n), j] = 1 + rng.rand()
        A = A / np.sqrt((A * A).sum(1).max())
        self.A, self.fmt, self.D = gen.as_format(rng, A, fmt, formats or DENSE_OK)
        self.kind = kind or ["log", "square", "huber"][rng.randint(3)]
        if name in ("saga", "svrg", "vrtos", "sfw") and self.kind == "huber":
            self.kind = "square"
        self.b = rng.randint(2, size=n).astype(float) if self.kind == "log" else rng.randn(n)
        self.ridge = [0.0, 0.1, 0.5][rng.randint(3)]
        self.x0 = 0.3 * rng.randn(p)
        self.max_iter = max_iter or 2 + rng.randint(12)
        self.tol = [0.0, 1e-6, 1e-2][rng.randint(3)]
        self.seed = int(rng.randint(2 ** 31))
        self.strength = 10.0 ** rng.uniform(-3, -0.5)
        self.pens = [["none", "l1", "group", "tv", "l1ball", "l2ball", "linfball", "simplex"][rng.randint(8)] for _ in range(2)]
        cut = np.sort(rng.permutation(np.arange(1, p))[: rng.randint(0, p)]) if p > 1 else []
        self.groups = [g for g in np.split(np.arange(p), cut) if len(g)]
        self.conf = {}
        c, c2, c3 = rng.rand(3)
        L = self.L = np.linalg.svd(self.D, compute_uv=False)[0] ** 2 / n + self.ridge
        Lmax = float((self.D ** 2).sum(1).max()) + self.ridge
        self.Lmat = None
        if name in ("fw", "fwp"):
            self.set = ["l1", "simplex", "trace"][rng.randint(3)] if name == "fw" and not simple else ["l1", "simplex"][rng.randint(2)] if name == "fw" else "l1"
            self.radius = [1.0, 0.5, 3.0][rng.randint(3)]
            self.conf["step"] = ["backtracking", "DR", "sublinear", "user"][rng.randint(4)]
            if name == "fwp" and self.conf["step"] == "sublinear":
                self.conf["step"] = "DR"
            if self.conf["step"] == "DR":
                self.conf["lipschitz"] = float(L)
            elif c < 0.5:
                self.conf["lipschitz"] = float(L)
            self.jac = [True, "callable"][rng.randint(2)] if c3 < 0.8 else "2-point"
            if name == "fwp":
                self.rep = (float([1, -1][rng.randint(2)]), int(rng.randint(p)))
                self.x0 = np.zeros(p)
                self.x0[self.rep[1]] = self.radius * self.rep[0]
                self.conf["variant"] = "pairwise"
                self.conf["x0_rep"] = self.rep
            elif self.set == "simplex":
                self.x0 = np.full(p, self.radius / p)
            else:
                self.x0 = np.zeros(p) if c2 < 0.5 else self.x0 * (self.radius / (np.abs(self.x0).sum() + 0.1))
        elif name in ("pg", "apg"):
            self.conf["step"] = ["backtracking", "user"][rng.randint(2)]
            self.jac = [True, "callable"][rng.randint(2)] if c3 < 0.8 else "2-point"
            if name == "apg":
                self.conf["accelerated"] = True
            elif c < 0.5:
                self.conf["trace_certificate"] = True
        elif name == "tos":
            if c < 0.7:
                self.conf["step_size"] = float([1 / L, 0.3 / L, 5 / L][rng.randint(3)])
                self.conf["line_search"] = bool(c2 < 0.6)
            if c3 < 0.3:
                self.conf["h_Lipschitz"] = [0.0, 1.0][rng.randint(2)]
        elif name == "pd":
            self.conf["line_search"] = bool(c < 0.6)
            self.conf["step_size"] = float(0.5 / (L + 2)) if c >= 0.6 else [1.0, 0.1][rng.randint(2)]
            if c2 < 0.5:
                self.conf["step_size2"] = self.conf["step_size"] * [0.5, 1][rng.randint(2)]
            if c3 < 0.5:
                k = 1 + rng.randint(p + 1)
                M = rng.randn(k, p)
                M /= np.linalg.svd(M, compute_uv=False)[0]
                self.Lmat = [M, sparse.csr_matrix(M), np.asfortranarray(M)][rng.randint(3)]
                self.pens[1] = ["none", "l1", "l2ball", "linfball"][rng.randint(4)]
        else:
            self.bpens = [["none", "l1", "group", "tv1", "tv2"][rng.randint(5)] for _ in range(2)]
            self.conf["step_size"] = float([1 / (3 * Lmax), 0.3 / Lmax][rng.randint(2)])
            self.conf["alpha"] = self.ridge
            if name == "sfw":
                self.set, self.radius = ["l1", "simplex"][rng.randint(2)], [1.0, 0.5, 3.0][rng.randint(3)]
                self.conf = dict(variant=["SAG", "SAGA", "MHK", "LF"][rng.randint(4)], batch_size=[1, 2, n][rng.randint(3)], step_size=["sublinear", "DR", "user"][rng.randint(3)])
                if self.conf["step_size"] == "DR":
                    self.conf["lipschitz"] = float(L)
                self.x0 = np.zeros(p)
                if self.set == "simplex":
                    self.x0[rng.randint(p)] = self.radius
                self.tol = 0.0
        self.info = dict(solver=name, data=self.fmt, loss=self.kind, ridge=self.ridge, n=n, p=p, pens=getattr(self, "bpens", self.pens), conf=dict(self.conf), max_iter=self.max_iter, tol=self.tol,
                         jac=str(getattr(self, "jac", "")), set=getattr(self, "set", ""))

    # ------------------------------------------------------------------
    def objects(self):
        """Fresh user objects."""
        import copt.constraint as cc
        import copt.loss as cl
        import copt.penalty as cpn

        o = Objects()
        C = {"log": cl.LogLoss, "square": cl.SquareLoss, "huber": cl.HuberLoss}[self.kind]
        o.loss = C(self.A, self.b, self.ridge)

        def pen(k):
            s = self.strength
            return {"none": lambda: None, "l1": lambda: cpn.L1Norm(s), "group": lambda: cpn.GroupL1(s, self.groups), "tv": lambda: cpn.FusedLasso(s), "l1ball": lambda: cc.L1Ball(1.0),
                    "l2ball": lambda: cc.L2Ball(1.0), "linfball": lambda: cc.LinfBall(0.5), "simplex": lambda: cc.SimplexConstraint(1.0)}[k]()

        o.pens = [pen(k) for k in self.pens]
        if self.name in ("saga", "svrg", "vrtos"):
            def bp(k):
                s = self.strength
                if k == "none":
                    return None
                if k == "l1":
                    return cpn.L1Norm(s).prox_factory(self.p)
                if k == "group":
                    return cpn.GroupL1(s, self.groups).prox_factory(self.p)
                return getattr(cpn.FusedLasso(s), "prox_1_factory" if k == "tv1" else "prox_2_factory")(self.p)
            o.bpens = [bp(k) for k in self.bpens]
        if hasattr(self, "set"):
            if self.set == "l1":
                o.set = cc.L1Ball(self.radius)
            elif self.set == "simplex":
                o.set = cc.SimplexConstraint(self.radius)
            else:
                o.set = cc.TraceBall(self.radius, (1, self.p) if self.p % 2 else (2, self.p // 2))
        return o

    def functions(self):
        """Names of the user functions of this run."""
        f = {"fw": ["fun", "lmo"], "fwp": ["fun", "lmo"], "pg": ["fun", "prox_1"], "apg": ["fun", "prox_1"], "tos": ["fun", "prox_1", "prox_2"], "pd": ["fun", "prox_1", "prox_2"],
             "saga": ["deriv", "bprox_1"], "svrg": ["deriv", "bprox_1"], "vrtos": ["deriv", "bprox_1", "bprox_2"], "sfw": ["deriv", "lmo"]}[self.name]
        f = list(f)
        if getattr(self, "jac", None) == "callable":
            f.append("jac")
        if self.conf.get("step") == "user" or self.conf.get("step_size") == "user":
            f.append("step")
        for k in (1, 2):
            if self.pens[k - 1] == "none" and "prox_%d" % k in f:
                f.remove("prox_%d" % k)
            if hasattr(self, "bpens") and self.bpens[k - 1] == "none" and "bprox_%d" % k in f:
                f.remove("bprox_%d" % k)
        return f

    def call(self, objs=None, callback=None, wrap=None, x0=None, reseed=True, **over):
        """Runs the solver; wrap(name, fn) replaces the user functions."""
        import copt as cp

        o = objs or self.objects()
        w = wrap or (lambda name, fn: fn)
        if callback is not None:
            callback = w("callback", callback)
        x0 = self.x0.copy() if x0 is None else x0
        kw = dict(self.conf)
        kw.update(max_iter=self.max_iter, tol=self.tol, callback=callback)
        kw.update(over)
        L = self.L
        pr = lambda k: None if o.pens[k] is None else w("prox_%d" % (k + 1), o.pens[k].prox)
        if kw.get("step") == "user":
            if self.name in ("fw", "fwp"):
                kw["step"] = w("step", lambda dl: 0.4 * float(dl["max_step_size"]))
            else:
                kw["step"] = w("step", lambda dl: 0.9 / L)
        if kw.get("step_size") == "user":
            kw["step_size"] = w("step", lambda dl: (0.05, 0.3))
        if reseed and self.name in RANDOM:
            np.random.seed(self.seed)
        if self.name in ("fw", "fwp", "pg", "apg"):
            if self.jac is True:
                fun, kw["jac"] = w("fun", o.loss.f_grad), True
            elif self.jac == "callable":
                fun, kw["jac"] = w("fun", o.loss), w("jac", lambda x: o.loss.f_grad(x)[1])
            else:
                fun = w("fun", o.loss)
                kw["jac"] = self.jac
            if self.name in ("fw", "fwp"):
                lmo = w("lmo", o.set.lmo_pairwise if self.name == "fwp" else o.set.lmo)
                return cp.minimize_frank_wolfe(fun, x0, lmo, **kw)
            return cp.minimize_proximal_gradient(fun, x0, prox=pr(0), **kw)
        if self.name == "tos":
            return cp.minimize_three_split(w("fun", o.loss.f_grad), x0, prox_1=pr(0), prox_2=pr(1), **kw)
        if self.name == "pd":
            return cp.minimize_primal_dual(w("fun", o.loss.f_grad), x0, prox_1=pr(0), prox_2=pr(1), L=self.Lmat, **kw)
        deriv = w("deriv", o.loss.partial_deriv)
        if self.name == "sfw":
            return cp.minimize_sfw(deriv, self.A, self.b, x0, w("lmo", o.set.lmo), **kw)
        bp = lambda k: None if o.bpens[k] is None else (w("bprox_%d" % (k + 1), o.bpens[k][0]), o.bpens[k][1])
        if self.name == "vrtos":
            return cp.minimize_vrtos(deriv, self.A, self.b, x0, prox_1=bp(0), prox_2=bp(1), **kw)
        f = cp.minimize_saga if self.name == "saga" else cp.minimize_svrg
        return f(deriv, self.A, self.b, x0, prox=bp(0), **kw)


def same(a, b):
    """Bitwise equality of two solver results on everything but objects."""
    if set(a.keys()) != set(b.keys()):
        return "fields"
    for k in a.keys():
        u, v = a[k], b[k]
        if isinstance(u, dict):
            if dict(u) != dict(v):
                return k
        elif isinstance(u, np.ndarray):
            if u.shape != v.shape or u.dtype != v.dtype or u.tobytes() != v.tobytes():
                return k
        elif isinstance(u, list):
            if not np.array_equal(np.array(u, float), np.array(v, float), equal_nan=True):
                return k
        elif isinstance(u, (float, int, np.floating, np.integer, bool, np.bool_)):
            if not (u == v or (u != u and v != v)):
                return k
        elif u is None or isinstance(u, str):
            if u != v:
                return k
    return None
