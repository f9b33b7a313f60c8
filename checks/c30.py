"""C30: omitted options take their documented values, positional and keyword calls agree."""
import contextlib
import io
import warnings

import numpy as np
from scipy import sparse
import copt as cp
import copt.constraint as cc
import copt.loss as cl
import copt.penalty as cpn
from copt import tv_prox, utils
from vlib import gen, prob
from vlib.core import digest, Skip

ID = "C30"
RULE = ("calls of every public function with random options: with the options that have a default left out, with them spelled out, and with everything passed by position in the documented order; non-trivial: the call "
        "returns a result that is not trivially constant; distinct by (function, options, digest of the result)")
ASSUMPTIONS = ["the documented signatures (order, names, defaults) are those of version 0.9.1, written down in this file"]

N = object()  # required
SIG = {
    "minimize_frank_wolfe": [("fun", N), ("x0", N), ("lmo", N), ("x0_rep", None), ("variant", "vanilla"), ("jac", "2-point"), ("step", "backtracking"), ("lipschitz", None), ("args", ()), ("max_iter", 400), ("tol", 1e-12),
                             ("callback", None), ("verbose", 0), ("eps", 1e-8)],
    "minimize_proximal_gradient": [("fun", N), ("x0", N), ("prox", None), ("jac", "2-point"), ("tol", 1e-6), ("max_iter", 500), ("args", ()), ("verbose", 0), ("callback", None), ("step", "backtracking"), ("accelerated", False),
                                   ("eps", 1e-8), ("max_iter_backtracking", 1000), ("backtracking_factor", 0.6), ("trace_certificate", False)],
    "minimize_three_split": [("f_grad", N), ("x0", N), ("prox_1", None), ("prox_2", None), ("tol", 1e-6), ("max_iter", 1000), ("verbose", 0), ("callback", None), ("line_search", True), ("step_size", None),
                             ("max_iter_backtracking", 100), ("backtracking_factor", 0.7), ("h_Lipschitz", None), ("args_prox", ())],
    "minimize_primal_dual": [("f_grad", N), ("x0", N), ("prox_1", None), ("prox_2", None), ("L", None), ("tol", 1e-12), ("max_iter", 1000), ("callback", None), ("step_size", 1.0), ("step_size2", None), ("line_search", True),
                             ("max_iter_ls", 20), ("verbose", 0)],
    "minimize_saga": [("f_deriv", N), ("A", N), ("b", N), ("x0", N), ("step_size", N), ("prox", None), ("alpha", 0), ("max_iter", 500), ("tol", 1e-6), ("verbose", 1), ("callback", None)],
    "minimize_svrg": [("f_deriv", N), ("A", N), ("b", N), ("x0", N), ("step_size", N), ("alpha", 0), ("prox", None), ("max_iter", 500), ("tol", 1e-6), ("verbose", False), ("callback", None)],
    "minimize_vrtos": [("f_deriv", N), ("A", N), ("b", N), ("x0", N), ("step_size", N), ("prox_1", None), ("prox_2", None), ("alpha", 0), ("max_iter", 500), ("tol", 1e-6), ("callback", None), ("verbose", 0)],
    "minimize_sfw": [("f_deriv", N), ("A", N), ("b", N), ("x0", N), ("lmo", N), ("x0_rep", None), ("batch_size", 1), ("step_size", "sublinear"), ("lipschitz", None), ("max_iter", 500), ("tol", 1e-6), ("verbose", False),
                     ("callback", None), ("variant", "SAGA"), ("lmo_variant", "vanilla")],
}
REQUIRED = ["omitted " + f for f in SIG] + ["positional " + f for f in SIG] + ["limit reached " + f for f in SIG] + ["stopped by tol " + f for f in SIG if f not in ("minimize_vrtos", "minimize_frank_wolfe", "minimize_sfw")] + [
    "trials exhausted pg", "trials exhausted tos", "losses", "sets", "penalties", "trace", "projections", "constants", "attribute p"]


def problem(rng):
    n, m = 2 + rng.randint(4), 3 + rng.randint(5)
    A = rng.randn(m, n)
    if rng.rand() < 0.3:
        A = A * 10.0 ** -np.arange(n)
    b = rng.randint(2, size=m).astype(float)
    return n, m, A, b


class Fresh:
    """makes the arguments of a call anew, always the same"""

    def __init__(self, name, rng):
        self.name = name
        self.n, self.m, self.A, self.b = problem(rng)
        self.kind = "log" if rng.rand() < 0.5 else "square"
        self.ridge = float(rng.uniform(0.1, 0.5)) if rng.rand() < 0.7 else 0.0
        self.a = float(rng.uniform(0.01, 0.2))
        self.x0 = rng.randn(self.n)
        self.rad = float(rng.uniform(0.5, 3))
        self.v = int(rng.randint(self.n))
        self.seed = int(rng.randint(1 << 30))
        self.rng = rng
        self.loss = (cl.LogLoss if self.kind == "log" else cl.SquareLoss)(self.A, self.b, self.ridge)

    def required(self):
        if self.name == "minimize_frank_wolfe":
            x = np.zeros(self.n)
            x[self.v] = self.rad
            # the type of the problem decides what else is passed
            return dict(fun=self.loss.f_grad, x0=x, lmo=cc.L1Ball(self.rad).lmo)
        if self.name == "minimize_proximal_gradient":
            return dict(fun=self.loss.f_grad, x0=self.x0.copy())
        if self.name in ("minimize_three_split", "minimize_primal_dual"):
            return dict(f_grad=self.loss.f_grad, x0=self.x0.copy())
        out = dict(f_deriv=self.loss.partial_deriv, A=sparse.csr_matrix(self.A), b=self.b.copy(), x0=self.x0.copy())
        if self.name == "minimize_sfw":
            x = np.zeros(self.n)
            x[self.v] = self.rad
            out.update(x0=x, lmo=cc.L1Ball(self.rad).lmo)
        else:
            out.update(step_size=1 / (3 * self.loss.max_lipschitz))
        return out

    def value(self, p):
        """A valid value of the option p that is not the default."""
        rng, name = self.rng, self.name
        l1, grp = cpn.L1Norm(self.a), cpn.GroupL1(self.a, [[0, 1]])
        if p in ("prox", "prox_1", "prox_2"):
            o = [l1, grp][rng.randint(2)]
            return o.prox_factory(self.n) if name in ("minimize_saga", "minimize_svrg", "minimize_vrtos") else (o.prox if name != "minimize_three_split" else lambda x, s, *args: o.prox(x, s))
        if p == "max_iter":
            return int(rng.randint(1, 40))
        if p == "tol":
            return float(10.0 ** rng.uniform(-9, -2))
        if p == "alpha":
            return float(rng.uniform(0.05, 0.5))
        if p == "verbose":
            return [0, 1, True, False][rng.randint(4)]
        if p == "lipschitz":
            return float(self.loss.lipschitz * rng.uniform(0.5, 2))
        if p in ("max_iter_backtracking", "max_iter_ls"):
            return int(rng.randint(30, 60))
        if p == "backtracking_factor":
            return float(rng.uniform(0.3, 0.9))
        if p == "eps":
            return float(10.0 ** rng.uniform(-9, -6))
        if p in ("trace_certificate", "accelerated"):
            return True
        if p in ("args", "args_prox"):
            return (3.0, "q")
        if p == "h_Lipschitz":
            return float(rng.uniform(0.5, 3))
        if p == "L":
            return [np.eye(self.n) * 0.7, sparse.csr_matrix(np.diff(np.eye(self.n), axis=0))][rng.randint(2)]
        if p == "line_search":
            return False
        if p in ("step_size", "step_size2"):
            if name == "minimize_sfw":
                return ["sublinear", "DR", "constant"][rng.randint(2)]
            return float(rng.uniform(0.1, 0.6) / self.loss.lipschitz)
        if p == "batch_size":
            return int(rng.randint(1, self.m))
        if p == "step":
            if name == "minimize_frank_wolfe":
                return ["sublinear", "DR", lambda dl: 1.0 / (dl["it"] + 2)][rng.randint(2)]
            h = float(0.7 / self.loss.lipschitz)
            return lambda dl: h
        if p == "variant":
            return ["SAG", "MHK", "LF"][rng.randint(3)] if name == "minimize_sfw" else "pairwise"
        if p == "jac":
            return True
        if p == "x0_rep":
            return (1.0, self.v)
        raise Skip

    def options(self):
        """random valid options; functions follow the options"""
        rng, name = self.rng, self.name
        names = [p for p, d in SIG[name] if d is not N]
        want = set(p for p in names if rng.rand() < 0.45)
        if rng.rand() < 0.5:
            want.add("tol")  # so that max_iter decides
            self.zero = True
        else:
            self.zero = False
        kw = {}
        if name in ("minimize_frank_wolfe", "minimize_proximal_gradient"):
            # value and gradient together, apart, or values only
            t = rng.randint(3)
            self.mode = ["true", "callable", "2-point"][t]
            want.discard("jac")
            if t == 0:
                kw["jac"] = True
            elif t == 1:
                kw["jac"] = lambda x, *args: self.loss.f_grad(x)[1]
        if name == "minimize_frank_wolfe":
            want -= {"x0_rep", "variant"}
            if rng.rand() < 0.3:
                kw.update(x0_rep=(1.0, self.v), variant="pairwise")
                self.pairwise = True
            else:
                self.pairwise = False
        if name == "minimize_sfw":
            want -= {"x0_rep", "lmo_variant"}
        want.discard("callback")
        for p in names:
            if p in want:
                kw[p] = self.value(p)
        if "tol" in kw and self.zero:
            kw["tol"] = 0.0
        if name == "minimize_frank_wolfe" and self.pairwise and "step" in kw:
            kw["step"] = "DR"  # the other rules may take more than the weight of a vertex
        if name == "minimize_frank_wolfe" and kw.get("step") == "DR":
            kw["lipschitz"] = self.loss.lipschitz
        if name == "minimize_sfw" and kw.get("step_size") == "DR":
            kw["lipschitz"] = self.loss.lipschitz
            if kw.get("variant") == "MHK" or "variant" not in kw:
                kw["variant"] = "SAG"
        if name == "minimize_primal_dual" and kw.get("line_search") is False:
            kw["step_size"] = 0.3 / self.loss.lipschitz
            kw["step_size2"] = float(0.3 * self.loss.lipschitz / 4)
        if name == "minimize_primal_dual" and "prox_2" in kw and "L" in kw:
            kw["prox_2"] = cpn.L1Norm(self.a).prox
        if name == "minimize_three_split" and kw.get("line_search") is False and "step_size" not in kw:
            kw["step_size"] = 0.9 / self.loss.lipschitz
        if name == "minimize_proximal_gradient" and not callable(kw.get("step")) and "max_iter_backtracking" in kw and self.mode == "2-point":
            kw.pop("max_iter_backtracking")
        return kw

    def fixed(self, kw):
        """the required arguments, given the options"""
        req = self.required()
        if self.name in ("minimize_frank_wolfe", "minimize_proximal_gradient"):
            if self.mode == "true":
                req["fun"] = lambda x, *args: self.loss.f_grad(x)
            else:
                req["fun"] = lambda x, *args: self.loss(x)
        if self.name == "minimize_frank_wolfe" and self.pairwise:
            req["lmo"] = cc.L1Ball(self.rad).lmo_pairwise
        return req


def outcome(name, pos, kw, seed):
    """everything a caller can see of a run"""
    out = io.StringIO()
    state = np.random.get_state()
    np.random.seed(seed)
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            r = getattr(cp, name)(*pos, **kw)
    finally:
        np.random.set_state(state)
    items = {k: (np.asarray(v).tobytes() if isinstance(v, (np.ndarray, list)) else repr(v)) for k, v in r.items()}
    items["printed"] = out.getvalue()
    return r, items


def differing(a, b):
    return sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))


def show(kw):
    return {k: v if isinstance(v, (int, float, str, bool, tuple)) else type(v).__name__ for k, v in kw.items()}


def limit(name, kw):
    return kw.get("max_iter", dict(SIG[name])["max_iter"])


def wl_calls(ctx, rng):
    name = list(SIG)[rng.randint(len(SIG))]
    F = Fresh(name, rng)
    kw = F.options()
    sig = SIG[name]
    info = dict(function=name, options=show(kw), loss=F.kind, shape=[F.m, F.n])
    r, base = outcome(name, (), dict(F.fixed(kw), **kw), F.seed)
    nit = r.get("nit", 0)
    if limit(name, kw) - 1 <= nit <= limit(name, kw) or (name == "minimize_frank_wolfe" and not r.success):
        ctx.count("limit reached " + name)
    elif r.get("success"):
        ctx.count("stopped by tol " + name)
    if rng.rand() < 0.65:
        # spelled out
        out = [(p, d) for p, d in sig if d is not N and p not in kw and not (p == "jac" and F.mode != "2-point")]
        if rng.rand() < 0.5 and out:
            out = [out[i] for i in rng.permutation(len(out))[:1 + rng.randint(len(out))]]
        full = dict(kw, **dict(out))
        _, other = outcome(name, (), dict(F.fixed(kw), **full), F.seed)
        ctx.check(base == other, "leaving options out is not the same as passing their documented values", differs=differing(base, other), spelled_out=show(dict(out)),
                  x=np.frombuffer(base["x"])[:6], x_explicit=np.frombuffer(other["x"])[:6], nit=[base.get("nit"), other.get("nit")], **info)
        ctx.count("omitted " + name)
    else:
        # by position, up to a random argument
        full = dict(dict((p, d) for p, d in sig if d is not N), **kw)
        if "jac" in full and F.mode != "2-point":
            full["jac"] = kw["jac"]
        args = dict(F.fixed(kw), **full)
        k = 1 + rng.randint(len(sig))
        if rng.rand() < 0.5:
            k = len(sig)
        pos = [args[p] for p, _ in sig[:k]]
        rest = {p: args[p] for p, _ in sig[k:]}
        try:
            _, other = outcome(name, pos, rest, F.seed)
        except Exception as e:
            ctx.fail("a call by position in the documented order fails", error=repr(e), by_position=k, **info)
        ctx.check(base == other, "a call by position differs from the same call by keyword", differs=differing(base, other), by_position=k, **info)
        ctx.count("positional " + name)
    ctx.key(name, digest(np.array(r.x)), repr(sorted(show(kw).items(), key=str)))
    ctx.sample(nit=repr(nit), **info)


def wl_trials(ctx, rng):
    """The number of line search trials, seen with an objective that never decreases."""
    c = [0.0]
    n = 1 + rng.randint(4)

    def fg(x, return_gradient=True):
        c[0] += 1.0
        g = np.ones(n)
        return (c[0], g) if return_gradient else c[0]

    which = ["pg", "tos"][rng.randint(2)]
    seen = []

    def callback(dl):
        seen.append(c[0])
        return len(seen) < 2

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if which == "pg":
            kw, d = {}, dict(max_iter_backtracking=1000, backtracking_factor=0.6)
        else:
            kw, d = {}, dict(max_iter_backtracking=100, backtracking_factor=0.7)
        f = (lambda **k: cp.minimize_proximal_gradient(fg, np.zeros(n), jac=True, callback=callback, max_iter=3, **k)) if which == "pg" else (
            lambda **k: cp.minimize_three_split(fg, np.zeros(n), callback=callback, max_iter=2, step_size=1.0, **k))
        res = []
        for kw in ({}, d):
            c[0], seen[:] = 0.0, []
            r = f(**kw)
            res.append((c[0], list(seen), np.array(r.x).tobytes()))
    ctx.check(res[0] == res[1], "leaving the number of trials out is not the same as passing its documented value", solver=which, evaluations=[res[0][0], res[1][0]])
    ctx.check(res[0][0] > 50, "the line search gave up early", evaluations=res[0][0], solver=which)
    ctx.count("trials exhausted " + which)
    ctx.key("trials", which, n, rng.randint(1 << 30))


def same(a, b):
    """equal values, types of arrays and shapes"""
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if sparse.issparse(a):
        return sparse.issparse(b) and (a != b).nnz == 0
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.tobytes() == b.tobytes()
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * abs(a) or a == b or (a != a and b != b)  # iterative singular values start at random
    return a == b


def wl_parts(ctx, rng):
    """The same for the constructors and functions of the package."""
    n, m, A, b = problem(rng)
    n2 = 2 + rng.randint(6)
    x = rng.randn(n) * [0.3, 1, 5][rng.randint(3)]
    a = float(rng.uniform(0.1, 2))
    img = rng.randn(n2 * 3) * 5
    q = rng.randint(12)
    if q == 0:
        C = [cl.LogLoss, cl.SquareLoss, cl.HuberLoss][rng.randint(3)]
        variants = [lambda: C(A, b), lambda: C(A, b, 0), lambda: C(A=A, b=b), lambda: C(b=b, A=A, alpha=0)]
        if C is cl.HuberLoss:
            variants += [lambda: C(A, b, 0, 1), lambda: C(A, b, delta=1), lambda: C(A, b * 1.0, delta=1, alpha=0)]
        ev = lambda o: (o(x), o.f_grad(x)[1], o.f_grad(x, return_gradient=False), o.f_grad(x, return_gradient=True)[0], o.lipschitz)
        x = x * 3
        what = "losses"
    elif q == 1:
        d, al = float(rng.uniform(0.2, 3)), float(rng.uniform(0.1, 1))
        variants = [lambda: cl.HuberLoss(A, b, al, d), lambda: cl.HuberLoss(A, b, delta=d, alpha=al), lambda: cl.HuberLoss(delta=d, b=b, A=A, alpha=al)]
        ev = lambda o: (o(x * 5), o.f_grad(x)[1], o.lipschitz)
        what = "losses"
    elif q == 2:
        C = [cc.L1Ball, cc.L2Ball, cc.LinfBall][rng.randint(3)]
        o = C(a)
        variants = [lambda: o.prox(x), lambda: o.prox(x, None), lambda: o.prox(x, step_size=float(rng.uniform(0.1, 9))), lambda: C(alpha=a).prox(x, 3)]
        ev = lambda v: v
        what = "sets"
    elif q == 3:
        C = [cc.L1Ball, cc.L2Ball, cc.LinfBall][rng.randint(3)]
        o = C(a)
        inside = np.linalg.norm(x, o.p) <= a * (1 - 1e-9)
        if abs(np.linalg.norm(x, o.p) - a) < 1e-6:
            raise Skip
        proj = np.asarray(o.prox(x))
        ctx.check(np.allclose(proj, x, rtol=1e-12, atol=0) == bool(inside) and abs(np.linalg.norm(proj, o.p) - min(a, np.linalg.norm(x, o.p))) <= 1e-9 * a, "the order p of a ball is not that of its norm",
                  ball=C.__name__, p=o.p, projection=proj, x=x, alpha=a)
        ctx.count("attribute p")
        ctx.key("p", C.__name__, digest(x))
        return
    elif q == 4:
        variants = [lambda: cc.SimplexConstraint(), lambda: cc.SimplexConstraint(1), lambda: cc.SimplexConstraint(s=1)]
        ev = lambda o: (o.prox(x, 1.0), o.lmo(x, x)[0], o.lmo(x, x, None)[0], o.lmo(u=x, x=x, active_set=None)[3])
        what = "sets"
    elif q == 5:
        f = [cc.euclidean_proj_simplex, cc.euclidean_proj_l1ball][rng.randint(2)]
        variants = [lambda: f(x), lambda: f(x, 1), lambda: f(x, s=1.0), lambda: f(v=x, s=1)]
        ev = lambda v: v
        what = "projections"
    elif q == 6:
        o = [cc.L1Ball(a), cc.TraceBall(a, (1, n)), cc.SimplexConstraint(a)][rng.randint(3)]
        y = rng.randn(n)
        variants = [lambda: o.lmo(x, y), lambda: o.lmo(x, y, None), lambda: o.lmo(x, y, active_set=None), lambda: o.lmo(u=x, x=y)]
        ev = lambda v: (np.array(v[0]), float(v[3]))
        what = "sets"
    elif q == 7:
        zero = dict(tol=0) if rng.rand() < 0.5 else {}
        variants = [lambda: cpn.TotalVariation2D(a, (n2, 3), **zero), lambda: cpn.TotalVariation2D(a, (n2, 3), 100, **zero), lambda: cpn.TotalVariation2D(alpha=a, shape=(n2, 3), max_iter=100, **zero)]
        if not zero:
            variants += [lambda: cpn.TotalVariation2D(a, (n2, 3), tol=1e-6), lambda: cpn.TotalVariation2D(a, (n2, 3), 100, 1e-6)]
        st = float(rng.uniform(0.2, 2))
        ev = lambda o: (np.array(o.prox(img, st)), float(o(img)))
        what = "penalties"
    elif q == 8:
        zero = dict(tol=0) if rng.rand() < 0.5 else {}
        variants = [lambda: tv_prox.prox_tv2d(img, a, n2, 3, **zero), lambda: tv_prox.prox_tv2d(img, a, n2, 3, max_iter=500, **zero), lambda: tv_prox.prox_tv2d(w=img, step_size=a, n_rows=n2, n_cols=3, **zero)]
        if not zero:
            variants += [lambda: tv_prox.prox_tv2d(img, a, n2, 3, 500, 1e-6), lambda: tv_prox.prox_tv2d(img, a, n2, 3, tol=1e-6)]
        ev = lambda v: np.array(v)
        what = "penalties"
    elif q == 9:
        S = cl.LogLoss(A, b)

        def made(*args, **kw):
            t = utils.Trace(*args, **kw)
            for k in range(7):
                t(dict(x=x + k, step_size=0.5))
            return t
        given = rng.rand() < 0.6
        variants = [lambda: made(S), lambda: made(S, 1), lambda: made(f=S, freq=1)] if given else [lambda: made(), lambda: made(None), lambda: made(None, 1), lambda: made(freq=1)]
        ev = lambda t: (np.array(t.trace_x), tuple(float(v) for v in t.trace_fx), len(t.trace_time), tuple(t.trace_step_size))
        what = "trace"
    elif q == 10:
        M = A if rng.rand() < 0.5 else sparse.csr_matrix(A)
        variants = [lambda: utils.get_max_lipschitz(M, "logloss"), lambda: utils.get_max_lipschitz(M, "logloss", 0), lambda: utils.get_max_lipschitz(A=M, loss="logloss", alpha=0)]
        ev = lambda v: float(v)
        got, want = utils.get_max_lipschitz(M, "logloss"), cl.LogLoss(M, b).max_lipschitz
        ctx.check(abs(got - want) <= 1e-12 * want, "the constant without alpha is not the one for alpha = 0", got=got, expected=want)
        what = "constants"
    else:
        o = [cpn.L1Norm, lambda alpha: cpn.GroupL1(alpha, [[0, 1]]), cpn.FusedLasso][rng.randint(3)]
        variants = [lambda: o(a), lambda: o(alpha=a)]
        ev = lambda p: (np.array(p.prox(x, 0.7)), np.array(p.prox(x=x, step_size=0.7)), float(p(x)))
        what = "penalties"
    vals = []
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for i, v in enumerate(variants):
            try:
                vals.append(ev(v()))
            except TypeError as e:
                ctx.fail("a documented way to call is rejected", what=what, case=int(q), variant=i, error=repr(e))
    for i, v in enumerate(vals):
        ctx.check(same(vals[0], v), "equivalent ways to call give different results", what=what, case=int(q), variant=i, first=vals[0], other=v)
    if q == 9:
        ctx.check(len(vals[0][1] if given else vals[0][0]) == 7 and vals[0][2] == 7, "the trace does not record every iterate by default", recorded=len(vals[0][0]))
    ctx.count(what)
    ctx.key(what, int(q), digest(x, A, img))


WORKLOADS = [("calls", wl_calls, 700, 12000), ("trials", wl_trials, 10, 100), ("parts", wl_parts, 1500, 20000)]
