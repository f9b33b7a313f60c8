"""C26: objective functions written with PyTorch."""
import sys

import numpy as np
import copt
from vlib import faketorch, gen
from vlib.core import digest, Skip

sys.modules["torch"] = torch = faketorch.module()
import copt.utils_pytorch as up  # noqa: E402

ID = "C26"
RULE = ("random differentiable function of a tensor of random shape, type and device wrapped with make_func_and_grad and called many times, with the value, the gradient, the tensors the function receives and the arrays "
        "passed compared with an implementation in numpy; then minimised by a solver; non-trivial: a nonzero gradient; distinct by digest of the point and the gradient")
ASSUMPTIONS = ["PyTorch is replaced by a stand-in (vlib/faketorch.py): tensors on named devices with reverse-mode differentiation, checked against finite differences"]
REQUIRED = ["wrapped", "repeated calls", "without gradient", "other device", "single precision", "converted type", "earlier gradients intact", "parameters", "shapes of 3 dimensions", "solvers", "stand-in validated", "points as lists", "functions that work in place", "layouts"]


def make(rng, shape, device, dt, inplace=False):
    """(function of a tensor, same in numpy returning value and gradient, tensors received)"""
    n = int(np.prod(shape))
    W = rng.randn(*shape).astype(dt)
    kind = ["quadratic", "sin", "logistic", "index", "product"][rng.randint(5)]
    seen = []
    Wt = torch.tensor(W, device=device)
    par = rng.rand() < 0.3
    if par:
        Wt.requires_grad = True
    k = tuple(rng.randint(s) for s in shape)

    def loss(t):
        seen.append((tuple(t.shape), t.dtype, t.device, t._a.copy()))
        if inplace:
            # the function works on its tensor, with torch.no_grad(): t.mul_(0.5)
            t._a *= 0.5
        d = t - Wt
        if kind == "quadratic":
            return (d * d).sum() * 0.5
        if kind == "sin":
            return (Wt * t.sin()).sum()
        if kind == "logistic":
            return (d * Wt).exp().log1p().mean()
        if kind == "index":
            return (t[k] * 3.0 + (t * Wt).sum()) ** 2
        return (t * t * Wt).sum() + t.sum()

    def ref(x):
        x = np.asarray(x, dtype=dt).reshape(shape).astype(float)
        if inplace:
            x = x * 0.5
        w = W.astype(float)
        d = x - w
        if kind == "quadratic":
            return 0.5 * (d * d).sum(), d.ravel()
        if kind == "sin":
            return (w * np.sin(x)).sum(), (w * np.cos(x)).ravel()
        if kind == "logistic":
            e = np.exp(d * w)
            return np.log1p(e).mean(), (e * w / (1 + e) / n).ravel()
        if kind == "index":
            v = 3 * x[k] + (x * w).sum()
            g = w.copy()
            g[k] += 3
            return v ** 2, 2 * v * g.ravel()
        return (x * x * w).sum() + x.sum(), (2 * x * w + 1).ravel()
    return loss, ref, seen, kind + (", in place" if inplace else ""), par


def wl_wrap(ctx, rng):
    shape = [(5,), (1,), (2, 3), (3, 1), (2, 3, 4), (1, 3, 5, 2), (40,)][rng.randint(7)]
    device = ["cpu", "cpu", "cuda", torch.device("cuda:0")][rng.randint(4)]
    dtype = [None, None, torch.float64, torch.float32][rng.randint(4)]
    xdt = [np.float64, np.float64, np.float32][rng.randint(3)]
    dt = np.dtype(dtype or xdt)
    loss, ref, seen, kind, par = make(rng, shape, device, dt, rng.rand() < 0.15)
    n = int(np.prod(shape))
    shape_arg = shape if rng.rand() < 0.6 else list(shape)
    args = (loss, shape_arg, device) + (() if dtype is None and rng.rand() < 0.5 else (dtype,))
    f = up.make_func_and_grad(*args)
    kept = []
    u = 1e-12 if dt == np.float64 else 3e-4
    info = dict(shape=shape, device=str(device), dtype=str(dtype), x_dtype=str(np.dtype(xdt)), function=kind)
    for c in range(1 + rng.randint(6)):
        x = rng.randn(n).astype(xdt)
        q = rng.randint(8)
        lay = "plain"
        if q == 0 and xdt == np.float64:
            x, lay = gen.layout(rng, x, which=["strided", "reversed", "readonly", "fortran_col"][rng.randint(4)])
            ctx.count("layouts")
        elif q == 1 and dtype is torch.float64:
            x, lay = x.astype(float).tolist(), "list"
            ctx.count("points as lists")
        before = np.array(x)
        del seen[:]
        ev, eg = ref(x)
        if rng.rand() < 0.3:
            v = f(x, return_gradient=False) if rng.rand() < 0.5 else f(x, False)
            ctx.check(np.ndim(v) == 0 and not isinstance(v, faketorch.Tensor), "without gradient, the function does not return a number", got=type(v), **info)
            ctx.count("without gradient")
            g = None
        else:
            out = f(x) if rng.rand() < 0.7 else f(x, return_gradient=True)
            ctx.check(isinstance(out, tuple) and len(out) == 2, "the function does not return its value and gradient", got=type(out), **info)
            v, g = out
            ctx.check(isinstance(v, float) and isinstance(g, np.ndarray) and g.shape == (n,), "the function does not return a number and a vector", got=(type(v), getattr(g, "shape", None)), **info)
            ctx.check(np.all(np.abs(g - eg) <= u * (1 + np.abs(eg).max() + abs(ev))), "the gradient is not that of the function at the point", x=x, got=g, expected=eg, call=c, **info)
            ctx.check(g.dtype == dt, "the gradient does not have the type asked for", got=str(g.dtype), **info)
            if eg.any():
                ctx.key(digest(np.asarray(x)), digest(g))
        ctx.check(abs(v - ev) <= u * (1 + abs(ev) + np.abs(eg).max()), "the value is not that of the function at the point", x=x, got=v, expected=ev, call=c, **info)
        ctx.check(np.array_equal(before, np.array(x)), "the point was modified", **info)
        ctx.check(len(seen) == 1, "the function is not evaluated once per call", got=len(seen), **info)
        sh, sd, sdev, sa = seen[0]
        ctx.check(sh == shape and sd == dt and sdev == device, "the function does not receive a tensor of the shape, type and device asked for", got=(sh, str(sd), str(sdev)), **info)
        ctx.check(np.array_equal(sa.ravel(), before.astype(dt)), "the function does not receive the point", got=sa, x=x, **info)
        if g is not None:
            for o, o0 in kept:
                ctx.check(np.array_equal(o, o0), "an earlier gradient was overwritten by a later call", **info)
                ctx.check(not np.shares_memory(o, g), "gradients of two calls share memory", **info)
                ctx.count("earlier gradients intact")
            kept.append((g, g.copy()))
        if c:
            ctx.count("repeated calls")
    ctx.count("wrapped")
    if "in place" in kind:
        ctx.count("functions that work in place")
    if faketorch.Device(device) != "cpu":
        ctx.count("other device")
    if dt == np.float32:
        ctx.count("single precision")
    if dtype is not None and np.dtype(dtype) != xdt:
        ctx.count("converted type")
    if par:
        ctx.count("parameters")
    if len(shape) == 3:
        ctx.count("shapes of 3 dimensions")
    ctx.sample(**info)


def wl_solver(ctx, rng):
    shape = (1 + rng.randint(4), 1 + rng.randint(4))
    n = shape[0] * shape[1]
    H = rng.rand(*shape) + 0.5
    B = rng.randn(*shape)
    device = ["cpu", "cuda"][rng.randint(2)]
    Ht, Bt = torch.tensor(H, device=device), torch.tensor(B, device=device)
    f = up.make_func_and_grad(lambda t: (Ht * (t - Bt) ** 2).sum() * 0.5, shape, device)

    def g(x):
        d = x - B.ravel()
        return 0.5 * (H.ravel() * d * d).sum(), H.ravel() * d
    x0 = np.zeros(n)
    k = rng.randint(2)
    import copt.constraint as cc
    ball = cc.L1Ball(1.5)
    runs = []
    for h in (f, g):
        if k == 0:
            runs.append(copt.minimize_proximal_gradient(h, x0, prox=ball.prox, jac=True, step=lambda c: 0.6, max_iter=30, tol=0).x)
        else:
            runs.append(copt.minimize_frank_wolfe(h, x0, ball.lmo, jac=True, step="DR", lipschitz=1.5, max_iter=30).x)
    ctx.check(np.all(np.abs(runs[0] - runs[1]) <= 1e-9), "a solver does not follow the same iterates with the wrapped function", got=runs[0], expected=runs[1], shape=shape, solver=["proximal gradient", "Frank-Wolfe"][k])
    ctx.count("solvers")
    ctx.key("solver", digest(runs[1]))


def wl_standin(ctx, rng):
    """The stand-in differentiates what the checks use (finite differences in double precision)."""
    shape = [(3,), (2, 3), (2, 1, 3)][rng.randint(3)]
    loss, ref, seen, kind, par = make(rng, shape, "cpu", np.dtype(float))
    x = rng.randn(*shape)
    t = torch.tensor(x)
    t.requires_grad = True
    v = loss(t)
    v.backward()
    v2, g2 = ref(x)
    d = rng.randn(*shape)
    e = 1e-6
    fd = (loss(torch.tensor(x + e * d)).item() - loss(torch.tensor(x - e * d)).item()) / (2 * e)
    if not (abs((t.grad._a * d).sum() - fd) <= 1e-6 * (1 + abs(fd)) and np.allclose(t.grad._a.ravel(), g2, rtol=1e-9, atol=1e-9) and abs(v.item() - v2) <= 1e-9 * (1 + abs(v2))):
        raise RuntimeError("the stand-in for PyTorch is wrong (%s)" % kind)
    loss(t).backward()
    if not np.allclose(t.grad._a.ravel(), 2 * g2, rtol=1e-9, atol=1e-9):
        raise RuntimeError("the stand-in for PyTorch does not accumulate")
    ctx.count("stand-in validated")
    ctx.key("standin", digest(x))


WORKLOADS = [("standin", wl_standin, 60, 300), ("wrap", wl_wrap, 2500, 40000), ("solver", wl_solver, 80, 1000)]
