"""C29: all solvers agree on the solution of the same problem, built from the parts of the package."""
import contextlib
import io
import warnings

import numpy as np
from scipy import sparse
import copt as cp
import copt.constraint as cc
import copt.loss as cl
import copt.penalty as cpn
from vlib import gen, prob
from vlib.core import digest, Skip
from checks.c04 import make_groups

ID = "C29"
RULE = ("strongly convex problems assembled from the losses, penalties, constraints and factories of the package and given to every solver that applies, with the solutions compared with an "
        "independent optimum; the same problem after changes that must not matter (copies of samples, orders of samples and features, signs of features, units); non-trivial: at least two solvers and a solution "
        "that is not zero; distinct by digest of the solution")
ASSUMPTIONS = ["strongly convex problems, on which every solver has a linear rate", "the reference optimum is computed by own code (FISTA or Davis-Yin with own proximal operators) and checked by its optimality residual"]
SOLVERS = ["pg", "apg", "tos", "pd", "saga", "svrg", "vrtos", "fw", "fwp", "sfw"]
REQUIRED = ["solver " + s for s in SOLVERS] + ["term " + t for t in ("none", "l1", "group", "tv", "l1+group", "l1+tv", "group+l1", "l1ball", "simplex", "l2ball", "linfball", "l1+linfball")] + [
    "loss square", "loss log", "loss huber", "sparse data", "dense data", "all zero", "warm start", "copies", "reordered samples", "reordered features", "flipped signs", "intercept", "units"]

FORMATS = ["C", "F", "csr", "csc", "coo", "stridedcols", "csr_dup", "csr_explicit0", "transposed"]


class Problem:
    """mean loss + ridge / 2 ||x||^2 + one or two terms"""

    def __init__(self, kind, A, b, ridge, terms, delta=1.0):
        self.kind, self.A, self.b, self.ridge, self.terms, self.delta = kind, A, b, ridge, terms, delta
        self.m, self.n = A.shape
        self.L = (0.25 if kind == "log" else 1.0) * np.linalg.norm(A, 2) ** 2 / self.m + ridge
        self.S = prob.Smooth.__new__(prob.Smooth)
        self.S.A, self.S.b, self.S.kind, self.S.alpha, self.S.delta, self.S.m, self.S.n = A, b, kind, ridge, delta, self.m, self.n

    def F(self, x):
        return self.S.f(x) + sum(t.value(x) for t in self.terms)

    def violation(self, x):
        return max([t.violation(x) for t in self.terms] + [-np.inf])

    def solve(self):
        """Davis-Yin with own operators; raises if the residual is not tiny."""
        one = Term("none")
        P1, P2 = (self.terms + [one, one])[:2]
        L, S = self.L, self.S
        w = y = np.zeros(self.n)
        if len(self.terms) < 2:
            w, _ = prob.fista(S.f_grad, P1.prox, L, y, 20000)
            r = np.abs(P1.prox(w - S.grad(w) / L, 1 / L) - w).max()
        else:
            for k in range(60000):
                w = P2.prox(y, 1 / L)
                v = P1.prox(2 * w - y - S.grad(w) / L, 1 / L)
                y = y + v - w
                r = np.abs(v - w).max()
                if r < 1e-14 * (1 + np.abs(w).max()):
                    break
        if r > 1e-11 * (1 + np.abs(w).max()):
            raise Skip
        return w

    def loss(self, rng, fmt=None):
        M, fmt, _ = gen.as_format(rng, self.A, fmt or FORMATS[rng.randint(len(FORMATS))])
        if self.kind == "log":
            return cl.LogLoss(M, self.b, self.ridge), M, fmt
        if self.kind == "square":
            return cl.SquareLoss(M, self.b, self.ridge), M, fmt
        return cl.HuberLoss(M, self.b, self.ridge, self.delta), M, fmt


class Term(prob.Pen):
    def __init__(self, which, a=1.0, n=1, groups=None):
        self.which, self.a, self.n, self.groups = which, a, n, groups
        self.ball = which in ("l2ball", "linfball", "l1ball", "simplex")

    def make(self):
        a = self.a
        return {"none": lambda: None, "l1": lambda: cpn.L1Norm(a), "group": lambda: cpn.GroupL1(a, [list(g) for g in self.groups]), "tv": lambda: cpn.FusedLasso(a), "l2ball": lambda: cc.L2Ball(a),
                "linfball": lambda: cc.LinfBall(a), "l1ball": lambda: cc.L1Ball(a), "simplex": lambda: cc.SimplexConstraint(a)}[self.which]()

    def permuted(self, perm):
        return self


def problem(rng, terms=None, kind=None, nmax=9):
    n = 2 + rng.randint(nmax - 1)
    m = 2 + rng.randint(2 * n + 6)
    kind = kind or ["square", "log", "huber"][rng.randint(3)]
    A, _ = gen.dense_matrix(rng, m, n, ["normal", "sparse", "normal", "binary", "ties"][rng.randint(5)])
    A = A * np.sqrt(m) / np.linalg.norm(A, 2) * rng.uniform(0.7, 1.5)
    z = A.dot(rng.randn(n) * (rng.rand(n) < 0.6)) * 2
    b = (z + 0.3 * rng.randn(m) > 0).astype(float) if kind == "log" else z + 0.1 * rng.randn(m)
    ridge = float(rng.uniform(0.2, 0.8))
    delta = float([1.0, 0.5, 2.0][rng.randint(3)])
    terms = terms or ["none", "l1", "l1", "group", "tv", "l1+group", "l1+tv", "group+l1", "l1ball", "simplex", "l2ball", "linfball", "l1+linfball"][rng.randint(13)]
    p = Problem(kind, A, b, ridge, [], delta)
    g0 = np.abs(p.S.grad(np.zeros(n))).max()
    T = []
    for w in terms.split("+"):
        if w.endswith("ball") or w == "simplex":
            a = float(rng.uniform(0.2, 1.5))
        else:
            a = float(g0 * rng.uniform(0.05, 0.5)) + 1e-3
        T.append(Term(w, a, n, make_groups(rng, n) if w == "group" else None))
    p.terms = [t for t in T if t.which != "none"]
    p.name = terms
    return p


def runs(p):
    """the solvers that apply"""
    w = [t.which for t in p.terms]
    out = ["pg", "apg"] if len(w) < 2 else []
    out += ["tos", "pd"]
    if p.kind != "huber":
        if all(k in ("l1", "group") for k in w):
            out += ["vrtos"] + (["saga", "svrg"] if len(w) < 2 else [])
        elif w == ["tv"] and p.A.any(axis=0).all():
            out += ["vrtos"]
    if w == ["l1ball"] or w == ["simplex"]:
        out += ["fw"] + ["fwp"] * (w == ["l1ball"]) + ["sfw"] * (p.kind != "huber")
    return out


def run(ctx, rng, p, s, x0, tight=True):
    """(solution, result); the parts are built anew for each run"""
    loss, M, fmt = p.loss(rng)
    ctx.count("sparse data" if sparse.issparse(M) else "dense data")
    objs = [t.make() for t in p.terms]
    prox = [o.prox for o in objs] + [None, None]
    n = p.n
    if s in ("pg", "apg"):
        f, jac = (loss.f_grad, True) if rng.rand() < 0.7 else (loss, lambda x: loss.f_grad(x)[1])
        return cp.minimize_proximal_gradient(f, x0, prox=prox[0], jac=jac, max_iter=8000, tol=1e-9, accelerated=s == "apg")
    if s == "tos":
        if rng.rand() < 0.3:
            prox[0], prox[1] = prox[1], prox[0]
        kw = dict(step_size=1 / p.L, line_search=False) if rng.rand() < 0.4 else {}
        return cp.minimize_three_split(loss.f_grad, x0, prox[0], prox[1], tol=1e-8, max_iter=20000, **kw)
    if s == "pd":
        kw = dict(line_search=False, step_size=0.7 / p.L) if rng.rand() < 0.4 else {}
        if p.terms and p.terms[-1].which == "tv" and rng.rand() < 0.6:
            # as the l1 norm of the differences
            D = sparse.diags([np.full(n - 1, -1.0), np.ones(n - 1)], [0, 1], shape=(n - 1, n))
            h = cpn.L1Norm(p.terms[-1].a)
            first = prox[0] if len(p.terms) == 2 else None
            if kw:
                kw["step_size2"] = 0.9 * (1 / kw["step_size"] - p.L / 2) / 4
            return cp.minimize_primal_dual(loss.f_grad, x0, first, h.prox, L=[D.tocsr(), D.tocsc(), D.toarray()][rng.randint(3)], tol=1e-8, max_iter=30000, **kw)
        if rng.rand() < 0.3 and not (len(p.terms) == 1 and p.terms[0].ball):
            prox[0], prox[1] = prox[1], prox[0]
        if kw:
            kw["step_size2"] = 0.9 * (1 / kw["step_size"] - p.L / 2)
        return cp.minimize_primal_dual(loss.f_grad, x0, prox[0], prox[1], tol=1e-8, max_iter=30000, **kw)
    if s in ("saga", "svrg", "vrtos"):
        fac = [o.prox_factory(n) for o in objs if not isinstance(o, cpn.FusedLasso)]
        # features that no sample has are never updated (see DESIGN.md)
        x0 = np.where(p.A.any(axis=0), x0, 0.0)
        parts = [M.toarray() if sparse.issparse(M) and rng.rand() < 0.2 else M][0]
        cnt = (p.A != 0).sum(0)
        dmax = p.m / max(1, cnt[cnt > 0].min())
        lip = ((p.A ** 2).sum(1).max() * (0.25 if p.kind == "log" else 1.0))
        step = 1 / (3 * (lip + p.ridge * dmax))
        ctx.check(abs(loss.max_lipschitz - lip - p.ridge) <= 1e-10 * lip, "max_lipschitz is not the constant of the samples", got=loss.max_lipschitz, expected=lip + p.ridge)
        if s == "vrtos":
            if p.terms and p.terms[0].which == "tv":
                fac = [objs[0].prox_1_factory(n), objs[0].prox_2_factory(n)]
            fac = (fac + [None, None])[:2]
            return cp.minimize_vrtos(loss.partial_deriv, parts, p.b, x0, step, prox_1=fac[0], prox_2=fac[1], alpha=p.ridge, max_iter=600)
        fn = cp.minimize_saga if s == "saga" else cp.minimize_svrg
        return fn(loss.partial_deriv, parts, p.b, x0, step_size=step, prox=fac[0] if fac else None, alpha=p.ridge, max_iter=600, tol=1e-11)
    a = p.terms[0].a
    x1 = np.zeros(n)
    i = int(rng.randint(n))
    x1[i] = a
    if s == "fw":
        step = ["backtracking", "DR", "sublinear"][rng.randint(3)]
        lip = loss.lipschitz if step == "DR" or rng.rand() < 0.5 else None
        return cp.minimize_frank_wolfe(loss.f_grad, x1, objs[0].lmo, jac=True, step=step, lipschitz=lip, max_iter=600, tol=0)
    if s == "fwp":
        return cp.minimize_frank_wolfe(loss.f_grad, x1, objs[0].lmo_pairwise, x0_rep=(1.0, i), variant="pairwise", jac=True, step=["backtracking", "DR"][rng.randint(2)], lipschitz=loss.lipschitz,
                                       max_iter=6000, tol=1e-5)
    bs = int([1, 2, p.m][rng.randint(3)])
    return cp.minimize_sfw(loss.partial_deriv, M, p.b, x1, objs[0].lmo, batch_size=bs, variant=["SAG", "SAGA", "MHK", "LF"][rng.randint(4)], max_iter=30 * bs + 30, tol=0)


def judge(ctx, rng, p, sol, s, x0, info):
    """Run solver s on p and compare with the optimum; the solution is returned (None for the loose ones)."""
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        res = run(ctx, rng, p, s, x0)
    x = np.array(res.x)
    ctx.count("solver " + s)
    err = np.abs(x - sol).max()
    sc = 1 + np.abs(sol).max()
    viol = p.violation(x)
    F, Fs = p.F(x), p.F(sol)
    info = dict(info, solver=s, error=err, x=x, solution=sol, F=F, optimum=Fs)
    ctx.check(x.shape == sol.shape and np.isfinite(x).all(), "the solution is not finite", **info)
    if s == "sfw":
        Q = Problem(p.kind, p.A, p.b, 0.0, p.terms, p.delta)
        x_, _ = prob.fista(Q.S.f_grad, p.terms[0].prox, Q.L, sol, 4000)
        gap = Q.S.f(x) - Q.S.f(x_)
        bound = 1.0 * (p.A ** 2).sum(1).max() * (2 * p.terms[0].a) ** 2
        ctx.check(-1e-9 * sc <= gap <= bound, "the stochastic Frank-Wolfe solution is far from the optimum", gap=gap, bound=bound, **info)
        return None
    if s == "fw":
        diam = 2 * p.terms[0].a
        ctx.check(-1e-9 * (1 + abs(Fs)) <= F - Fs <= 2.5 * p.L * diam ** 2 / 600 + 1e-6, "the Frank-Wolfe solution is too far from the optimum", L=p.L, **info)
        ctx.check(F - Fs <= res.certificate + 1e-9 * (1 + abs(Fs)), "the certificate of Frank-Wolfe is below the suboptimality", certificate=res.certificate, **info)
        return None
    ctx.check(viol <= 1e-7 * sc, "the solution violates the constraint", violation=viol, **info)
    tol = {"fwp": 5e-3, "saga": 1e-6, "svrg": 1e-6, "vrtos": 1e-5, "pd": 1e-5, "tos": 1e-6}.get(s, 1e-6)
    ctx.check(err <= tol * sc, "the solvers do not agree on the solution", tol=tol * sc, **info)
    if s in ("pg", "apg", "tos", "pd", "saga", "svrg"):
        ctx.check(bool(res.success), "a well conditioned problem is not solved", **info)
    return x


def describe(p):
    return dict(loss=p.kind, shape=[p.m, p.n], terms=[(t.which, t.a) for t in p.terms], ridge=p.ridge)


def wl_agree(ctx, rng):
    p = problem(rng)
    sol = p.solve()
    info = describe(p)
    x0 = rng.randn(p.n) * [0, 1, 3][rng.randint(3)]
    loss, M, fmt = p.loss(rng)
    # the parts, added up, give the objective that is minimised
    tot = loss(sol) + sum(o(sol) for o in (t.make() for t in p.terms if not t.ball))
    ctx.check(abs(tot - p.F(sol)) <= 1e-11 * (1 + abs(tot)), "loss plus penalties is not the objective", got=tot, expected=p.F(sol), **info)
    names = runs(p)
    got = {}
    for s in names:
        x = judge(ctx, rng, p, sol, s, x0, info)
        if x is not None:
            got[s] = x
    ctx.count("term " + p.name)
    ctx.count("loss " + p.kind)
    if rng.rand() < 0.5 and got:
        # started where another solver ended
        s = list(got)[rng.randint(len(got))]
        t = [q for q in names if q in ("pg", "apg", "tos", "pd", "saga", "svrg", "vrtos")]
        judge(ctx, rng, p, sol, t[rng.randint(len(t))], got[s], dict(info, started_from=s))
        ctx.count("warm start")
    if len(got) > 1 and np.abs(sol).max() > 0:
        ctx.key("agree", digest(sol))
    ctx.sample(solvers=names, **info)


def wl_zero(ctx, rng):
    """A penalty above the largest gradient at zero: every solver ends at zero."""
    p = problem(rng, terms=["l1", "l1", "group"][rng.randint(3)])
    g = p.S.grad(np.zeros(p.n))
    t = p.terms[0]
    if t.which == "group":
        t.groups = [list(range(0, p.n // 2)), list(range(p.n // 2, p.n))]
        m = max(np.linalg.norm(g[q]) for q in t.groups)
    else:
        m = np.abs(g).max()
    t.a = float(m * rng.uniform(1.05, 3)) + 1e-3
    names = [s for s in runs(p) if s != "vrtos"]
    s = names[rng.randint(len(names))]
    sol = np.zeros(p.n)
    x = judge(ctx, rng, p, sol, s, rng.randn(p.n), describe(p))
    ctx.check(s in ("tos", "pd") or not x.any(), "the solution is not exactly zero although the penalty is above the largest gradient", x=x, solver=s, **describe(p))
    ctx.count("all zero")
    ctx.key("zero", s, digest(p.A, p.b))


def wl_relations(ctx, rng):
    """Changes of the problem that must not matter."""
    kind = ["copies", "reordered samples", "reordered features", "flipped signs", "units"][rng.randint(5)]
    terms = None
    if kind == "reordered features" or kind == "flipped signs":
        terms = ["none", "l1", "l1ball", "l2ball", "linfball", "l1+linfball", "tv", "simplex"][rng.randint(8)]
        if kind == "flipped signs" and terms in ("tv", "simplex"):
            terms = "l1"
    if kind == "units":
        terms = ["none", "l1", "group", "tv", "l1+group", "l1+tv"][rng.randint(6)]
    p = problem(rng, terms=terms, kind="square" if kind == "units" else None)
    sol = p.solve()
    back = lambda x: x
    A, b, ridge, T = p.A, p.b, p.ridge, p.terms
    if kind == "copies":
        k = 2 + rng.randint(3)
        A, b = np.tile(A, (k, 1)), np.tile(b, k)
    elif kind == "reordered samples":
        o = rng.permutation(p.m)
        A, b = A[o], b[o]
    elif kind == "reordered features":
        o = rng.permutation(p.n) if p.name != "tv" else np.arange(p.n)[::-1]
        A = A[:, o]
        inv = np.argsort(o)
        back = lambda x: x[inv]
    elif kind == "flipped signs":
        sg = rng.choice([-1.0, 1.0], p.n)
        A = A * sg
        back = lambda x: x * sg
    else:
        # targets in other units: the solution scales with them, if the penalties do
        c = 10.0 ** rng.uniform(-1, 1)
        b = b * c
        T = [Term(t.which, t.a * c, t.n, t.groups) for t in T]
        back = lambda x: x / c
    q = Problem(p.kind, A, b, ridge, T, p.delta)
    names = [s for s in runs(p) if s not in ("fw", "fwp", "sfw")]
    if len(names) > 4 and rng.rand() < 0.5:
        names = [s for s in names if s in ("saga", "svrg", "vrtos")] or names
    s = names[rng.randint(len(names))]
    qs = np.empty_like(sol)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        res = run(ctx, rng, q, s, rng.randn(p.n) * rng.randint(2))
    x = back(np.array(res.x))
    err = np.abs(x - sol).max()
    tol = {"vrtos": 1e-4, "pd": 1e-4}.get(s, 1e-5)
    ctx.check(err <= tol * (1 + np.abs(sol).max()), "the solution of the changed problem is not the changed solution", change=kind, solver=s, error=err, x=x, solution=sol, **describe(p))
    ctx.count(kind)
    ctx.count("solver " + s)
    ctx.key(kind, s, digest(sol))


def wl_intercept(ctx, rng):
    """Logistic regression with an intercept, against a problem with a column of ones whose weight is not penalised."""
    p = problem(rng, terms="none", kind="log")
    if p.b.min() == p.b.max():
        raise Skip
    B = np.c_[p.A, np.ones(p.m)]
    L = 0.25 * np.linalg.norm(B, 2) ** 2 / p.m + p.ridge
    S = Problem("log", B, p.b, 0.0, []).S
    e = np.append(np.full(p.n, p.ridge), 0.0)
    t = Term("l1", float(rng.uniform(0.001, 0.1)), p.n) if rng.rand() < 0.5 else Term("none", 1.0, p.n)

    def prox(x, step):
        return np.append(t.prox(x[:-1], step), x[-1])

    sol, _ = prob.fista(lambda x: (S.f(x) + 0.5 * e.dot(x * x), S.grad(x) + e * x), prox, L, np.zeros(p.n + 1), 30000)
    r = np.abs(prox(sol - (S.grad(sol) + e * sol) / L, 1 / L) - sol).max()
    if r > 1e-12:
        raise Skip
    M, fmt, _ = gen.as_format(rng, p.A, FORMATS[rng.randint(len(FORMATS))])
    loss = cl.LogLoss(M, p.b, p.ridge)
    loss.intercept = True
    o = t.make()
    user = None if o is None else lambda x, step: np.append(o.prox(x[:-1], step), x[-1])
    s = ["pg", "apg", "tos", "pd"][rng.randint(4)]
    x0 = rng.randn(p.n + 1)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        if s in ("pg", "apg"):
            res = cp.minimize_proximal_gradient(loss.f_grad, x0, prox=user, jac=True, tol=1e-9, max_iter=20000, accelerated=s == "apg")
        elif s == "tos":
            res = cp.minimize_three_split(loss.f_grad, x0, user, tol=1e-8, max_iter=30000)
        else:
            res = cp.minimize_primal_dual(loss.f_grad, x0, user, tol=1e-8, max_iter=30000)
    err = np.abs(res.x - sol).max()
    ctx.check(err <= 1e-4 * (1 + np.abs(sol).max()), "logistic regression with an intercept is not solved", solver=s, error=err, x=res.x, solution=sol, fmt=fmt, residual=r, **describe(p))
    ctx.count("intercept")
    ctx.key("intercept", s, digest(sol))


WORKLOADS = [("agree", wl_agree, 220, 5000, {"heavy": True}), ("zero", wl_zero, 160, 3000, {"heavy": True}), ("relations", wl_relations, 220, 5000, {"heavy": True}), ("intercept", wl_intercept, 80, 1500, {"heavy": True})]
