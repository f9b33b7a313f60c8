"""C27: failures of user functions and invalid options."""
import warnings
from collections import defaultdict

import numpy as np
import copt as cp
import copt.constraint as cc
import copt.loss as cl
import copt.penalty as cpn
from copt import frank_wolfe, tv_prox, utils
from vlib import gen, runs
from vlib.core import digest, Skip

ID = "C27"
RULE = ("random solver call in which the k-th call of one of its user functions (objective, gradient, proximal or linear minimisation oracle, derivative, step rule, callback) raises or starts returning values that are not finite, "
        "followed by the same call without fault on the same objects; public calls with one invalid option; non-trivial: the fault happened after at least one other call; distinct by (solver, function, position, exception)")
ASSUMPTIONS = ["stochastic solvers are reseeded before each run", "a primal-dual line search on an objective that is not a number is the listed finding of C17"]
FUNS = ["fun", "jac", "prox_1", "prox_2", "lmo", "deriv", "bprox_1", "bprox_2", "step", "callback"]
REQUIRED = ["fault " + s for s in runs.SOLVERS] + ["fault in " + f for f in FUNS] + ["objects used again", "not finite " + "objective", "not finite gradient", "invalid options"]


class Fault(Exception):
    pass


class FaultBase(BaseException):
    pass


EXC = [Fault, FaultBase, ValueError, TypeError, KeyError, IndexError, AttributeError, StopIteration, KeyboardInterrupt, SystemExit, GeneratorExit, ZeroDivisionError, FloatingPointError, OverflowError, RuntimeError,
       MemoryError, NotImplementedError, AssertionError, np.linalg.LinAlgError, UserWarning, TimeoutError, RecursionError]


class Recorder:
    """Counts the calls of all user functions; the one numbered `at` raises."""

    def __init__(self, at=None, exc=None, target=None):
        self.n, self.log, self.at, self.exc, self.raised, self.target = 0, [], at, exc, None, target

    def wrap(self, name, fn):
        def g(*a, **k):
            if self.target is None or name == self.target:
                self.n += 1
            self.log.append((name, digest(*[np.asarray(q) for q in a if isinstance(q, np.ndarray)])))
            if self.n == self.at and (self.target is None or name == self.target) and self.raised is None:
                self.raised = self.exc("fault %d" % self.n)
                raise self.raised
            return fn(*a, **k)
        return g


def wl_fault(ctx, rng):
    R = runs.Run(rng, simple=True)
    if R.name == "fw" and R.set == "trace":
        raise Skip  # random start of the iterative method
    o = R.objects()
    watch = rng.rand() < 0.7
    cb = (lambda dl: None) if watch else None
    x0 = R.x0.copy()
    clean = Recorder()
    first = R.call(o, callback=cb, wrap=clean.wrap, x0=x0)
    names = sorted({n for n, _ in clean.log})
    if not names:
        raise Skip
    target = names[rng.randint(len(names))]
    total = sum(1 for n, _ in clean.log if n == target)
    at = [1, total, 1 + rng.randint(total), 1 + rng.randint(total)][rng.randint(4)]
    exc = EXC[rng.randint(len(EXC))]
    if exc is StopIteration and getattr(R, "jac", None) == "2-point" and target == "fun":
        exc = Fault  # the finite differences of scipy call the objective in a loop over an iterator, which ends on StopIteration
    rec = Recorder(at, exc, target)
    np_state, filters = np.geterr(), list(warnings.filters)
    caught = None
    try:
        res = R.call(o, callback=cb, wrap=rec.wrap, x0=x0)
    except BaseException as e:  # noqa: B036 (the kinds that are raised here include KeyboardInterrupt and SystemExit)
        if rec.raised is None:
            raise
        caught = e
    info = dict(R.info, function=target, position=at, of=total, exception=exc.__name__)
    ctx.check(rec.raised is not None, "a repeated run does not make the same calls", **info)
    if caught is None:
        ctx.check(False, "an exception raised by a user function is swallowed", got=res.x, **info)
    ctx.check(caught is rec.raised, "an exception raised by a user function does not reach the caller", got=repr(caught), **info)
    ctx.check(len(rec.log) <= len(clean.log) and rec.log == clean.log[: len(rec.log)], "the calls before the fault are not those of a run without fault, or user functions are called after it",
              calls=len(rec.log), clean=len(clean.log), last=rec.log[-2:], **info)
    ctx.check(np.geterr() == np_state, "the error handling of numpy is not restored after a fault", **info)
    ctx.check(list(warnings.filters) == filters, "the filters of warnings are not restored after a fault", **info)
    ctx.check(np.array_equal(x0, R.x0), "the starting point is modified by a run that fails", **info)
    again = R.call(o, callback=cb, x0=x0)
    d = runs.same(first, again)
    ctx.check(d is None, "after a fault, the same objects give another result (%s)" % d, first=first.x, again=again.x, **info)
    ctx.count("objects used again")
    ctx.count("fault " + R.name)
    ctx.count("fault in " + target)
    if len(rec.log) > 1:
        ctx.key(R.name, target, at, exc.__name__, R.fmt)
    ctx.sample(**info)


LIMIT = 200000


class TooMany(BaseException):
    pass


def wl_notfinite(ctx, rng):
    """The objective or its gradient becomes nan or infinite: the run ends, and never as a success at a point that is not finite."""
    R = runs.Run(rng, simple=True)
    if R.name == "fw" and R.set == "trace":
        raise Skip
    if R.name == "pd" and R.conf["line_search"]:
        raise Skip
    bad = [np.nan, np.inf, -np.inf][rng.randint(3)]
    what = ["value", "gradient", "both"][rng.randint(3)]
    stoch = R.name in ("saga", "svrg", "vrtos", "sfw")
    if not stoch and R.jac is not True if hasattr(R, "jac") else False:
        raise Skip
    at = 1 + rng.randint(12)
    if what != "value" or stoch:
        if (R.name in ("fw", "fwp", "sfw")) and rng.rand() < 0.5:
            bad = np.nan
    once = rng.rand() < 0.3
    n = [0]
    seen = [False]

    def wrap(name, fn):
        if name not in ("fun", "deriv"):
            return fn

        def g(*a, **k):
            n[0] += 1
            if n[0] > LIMIT:
                raise TooMany
            out = fn(*a, **k)
            if n[0] < at or (once and n[0] > at):
                return out
            seen[0] = True
            if name == "deriv":
                return out + bad
            if isinstance(out, tuple):
                f, gr = out
                if what != "value":
                    gr = np.array(gr, dtype=float)
                    gr[rng.randint(gr.size)] = bad
                return (f + bad if what != "gradient" else f), gr
            return out + bad if what != "gradient" else out
        return g

    info = dict(R.info, value=bad, where="derivative" if stoch else what, position=at, once=once)
    try:
        res = R.call(wrap=wrap)
    except TooMany:
        ctx.fail("the run does not end after the objective stops being finite", **info)
    except Exception:  # e.g. of a projection of a point that is not finite: an honest end
        ctx.count("not finite rejected")
        return
    if not seen[0]:
        raise Skip
    x = np.asarray(res.x)
    ctx.check(x.shape == (R.p,), "the solution does not have the shape of the starting point", got=x.shape, **info)
    if res.get("success"):
        ctx.check(np.all(np.isfinite(x)), "success is reported at a point that is not finite", got=x, **info)
    ctx.count("not finite " + ("gradient" if stoch or what != "value" else "objective"))
    ctx.key("nf", R.name, at, str(bad), what, once)


def wl_invalid(ctx, rng):
    n, p = 3 + rng.randint(5), 2 + rng.randint(4)
    A = rng.randn(n, p)
    b = rng.randint(2, size=n).astype(float)
    loss = cl.LogLoss(A, b, 0.1)
    fg, x0 = loss.f_grad, np.zeros(p)
    ball = cc.L1Ball(1.0)
    word = ["", "nonsense", "Backtracking", "dr", "SUBLINEAR", "adaptive2", "none"][rng.randint(7)]
    neg = [0, -1, -5][rng.randint(3)]
    V, N, As = ValueError, NotImplementedError, AssertionError
    fw, pg, ts, pd = cp.minimize_frank_wolfe, cp.minimize_proximal_gradient, cp.minimize_three_split, cp.minimize_primal_dual
    dv = loss.partial_deriv
    cases = {
        "fw tol": (lambda: fw(fg, x0, ball.lmo, jac=True, tol=-10.0 ** rng.uniform(-12, 1)), V),
        "fw variant": (lambda: fw(fg, x0, ball.lmo, jac=True, variant=word), V),
        "fw step": (lambda: fw(fg, x0, ball.lmo, jac=True, step=word), V),
        "fw DR": (lambda: fw(fg, x0, ball.lmo, jac=True, step="DR"), V),
        "fw jac": (lambda: fw(loss, x0, ball.lmo, jac=word or "3-point"), N),
        "pg line search": (lambda: pg(fg, x0, jac=True, max_iter_backtracking=neg), V),
        "pg step": (lambda: pg(fg, x0, jac=True, step=word), V),
        "apg step": (lambda: pg(fg, x0, jac=True, step=word, accelerated=True), V),
        "pg jac": (lambda: pg(loss, x0, jac=word or "3-point"), N),
        "tos line search": (lambda: ts(fg, x0, max_iter_backtracking=neg), V),
        "pd line search": (lambda: pd(fg, x0, max_iter_ls=neg), V),
        "saga step": (lambda: cp.minimize_saga(dv, A, b, x0, step_size=None), V),
        "svrg step": (lambda: cp.minimize_svrg(dv, A, b, x0, step_size=None), V),
        "vrtos step": (lambda: cp.minimize_vrtos(dv, A, b, x0, step_size=-10.0 ** rng.uniform(-6, 1)), V),
        "vrtos labels": (lambda: cp.minimize_vrtos(dv, A, b[:-1], x0, step_size=0.1), As),
        "sfw variant": (lambda: cp.minimize_sfw(dv, A, b, x0, ball.lmo, 1, variant=word), V),
        "sfw lmo variant": (lambda: cp.minimize_sfw(dv, A, b, x0, ball.lmo, 1, lmo_variant=word), V),
        "sfw step": (lambda: cp.minimize_sfw(dv, A, b, x0, ball.lmo, 1, step_size=word), V),
        "sfw DR": (lambda: cp.minimize_sfw(dv, A, b, x0, ball.lmo, 1, step_size="DR"), V),
        "sfw shape": (lambda: cp.minimize_sfw(dv, A, b, np.zeros(p + 1), ball.lmo, 1), V),
        "labels above": (lambda: cl.LogLoss(A, np.where(np.arange(n) == rng.randint(n), 1 + 10.0 ** rng.uniform(-9, 2), b)), V),
        "labels below": (lambda: cl.LogLoss(A, np.where(np.arange(n) == rng.randint(n), -10.0 ** rng.uniform(-9, 2), b)), V),
        "labels -1": (lambda: cl.LogLoss(A, 2 * np.r_[0, b[1:]] - 1), V),
        "labels number": (lambda: cl.LogLoss(A, b[: 1 + rng.randint(n - 1)]), V),
        "simplex matrix": (lambda: cc.euclidean_proj_simplex(A, 1.0), V),
        "l1 matrix": (lambda: cc.euclidean_proj_l1ball(A, 1.0), V),
        "simplex radius": (lambda: cc.euclidean_proj_simplex(x0 + 1, neg), As),
        "l1 radius": (lambda: cc.euclidean_proj_l1ball(x0 + 1, neg), As),
        "trace shape": (lambda: cc.TraceBall(1.0, (2, 3, 4)[: [1, 3][rng.randint(2)]]), As),
        "trace norm shape": (lambda: cpn.TraceNorm(1.0, (2, 3, 4)[: [1, 3][rng.randint(2)]]), As),
        "trace shape and point": (lambda: cpn.TraceNorm(1.0, (2, p + 1)).prox(np.zeros(p), 1.0), V),
        "trace prox_factory": (lambda: cpn.TraceNorm(1.0, (1, p)).prox_factory(), N),
        "trace ball prox_factory": (lambda: cc.TraceBall(1.0, (1, p)).prox_factory(), N),
        "tv of integers": (lambda: tv_prox.prox_tv1d(np.arange(p), 1.0), V),
        "lipschitz of a loss": (lambda: utils.get_max_lipschitz(A, ["square", "huber", word][rng.randint(3)]), N),
        "step size of Trace": (lambda: utils.parse_step_size(None), V),
        "drop step too large": (lambda: frank_wolfe.update_active_set(defaultdict(float, {0: 0.25, 1: 0.75}), 2, 0, 0.25 * (1 + 10.0 ** rng.uniform(-9, 1))), V),
    }
    k = sorted(cases)[rng.randint(len(cases))]
    call, exc = cases[k]
    A0, b0, x00 = A.copy(), b.copy(), x0.copy()
    try:
        got = call()
    except exc as e:
        ctx.count("invalid options")
        ctx.key("invalid", k, word, neg)
    else:
        ctx.fail("an invalid argument is accepted (%s)" % k, got=str(got)[:200], word=word, number=neg)
    ctx.check(np.array_equal(A, A0) and np.array_equal(b, b0) and np.array_equal(x0, x00), "a rejected call modifies its arguments (%s)" % k)
    ctx.count("rejected: " + k)


REQUIRED += ["rejected: " + k for k in ("fw tol", "fw variant", "fw step", "fw DR", "fw jac", "pg line search", "pg step", "apg step", "pg jac", "tos line search", "pd line search", "saga step", "svrg step", "vrtos step",
                                        "vrtos labels", "sfw variant", "sfw lmo variant", "sfw step", "sfw DR", "sfw shape", "labels above", "labels below", "labels -1", "labels number", "simplex matrix", "l1 matrix",
                                        "trace shape", "trace norm shape", "tv of integers")]
WORKLOADS = [("fault", wl_fault, 2500, 30000), ("notfinite", wl_notfinite, 700, 8000), ("invalid", wl_invalid, 1200, 6000)]
