"""C19: calls are deterministic, re-entrant and independent of history and of other threads."""
import sys
import threading

import numpy as np
import copt as cp
from vlib import runs
from vlib.core import digest, Skip, Violation
from checks.c18 import functions, flat

ID = "C19"
RULE = ("random solver call or public function call, repeated under a different history (other calls before, shared objects, a solver run inside the callback, other threads running at the same time "
        "with a very small switch interval), compared bit for bit with the first result; non-trivial: the run makes at least two iterations; distinct by digest of the result and the kind of history")
ASSUMPTIONS = ["stochastic solvers are reseeded with numpy.random.seed before each run and not run concurrently", "vertices of the trace ball and Lipschitz constants come from an iterative method with a random start and are not compared bit for bit"]
REQUIRED = ["repeated", "after other runs", "shared objects", "inside a callback", "threads", "thread switches", "functions repeated", "functions in threads", "function thread switches", "random state untouched", "seed decides", "global settings untouched", "arguments overwritten in place"]
DET = [s for s in runs.SOLVERS if s not in runs.RANDOM]


def compare(ctx, a, b, what, **info):
    d = runs.same(a, b)
    ctx.check(d is None, "%s: the result is different (%s)" % (what, d), first=a.x, second=b.x, **info)


def wl(ctx, rng):
    R = runs.Run(rng, simple=True)
    a = R.call()
    kept = a.x.copy()
    what = rng.randint(5)
    err = np.geterr()
    if what == 0:
        b = R.call()
        compare(ctx, a, b, "the same call repeated", **R.info)
        ctx.count("repeated")
    elif what == 1:
        names = []
        for _ in range(1 + rng.randint(3)):
            R2 = runs.Run(rng, simple=True)
            R2.call()
            names.append(R2.name)
        b = R.call()
        compare(ctx, a, b, "the same call after other runs", others=names, **R.info)
        ctx.count("after other runs")
    elif what == 2:
        o = R.objects()
        for _ in range(2 + rng.randint(2)):
            if rng.rand() < 0.5:
                R.call(objs=o, max_iter=1 + rng.randint(5), x0=R.x0 * 0.5 if R.name not in ("fwp", "fw", "sfw") else None)
            if rng.rand() < 0.5:
                o.loss(rng.randn(R.p))
                o.loss.f_grad(rng.randn(R.p))
                for P in o.pens:
                    if P is not None:
                        P.prox(rng.randn(R.p), rng.rand())
            b = R.call(objs=o)
            compare(ctx, a, b, "a call that shares its losses and penalties with earlier calls", **R.info)
        ctx.count("shared objects")
    elif what == 3:
        # a solver run inside the callback or a user function of another one
        R2 = runs.Run(rng, simple=True, max_iter=3)
        where = (R.functions() + ["callback"])[rng.randint(len(R.functions()) + 1)]
        o = R.objects()
        inner, calls = [], [0]
        o2 = R2.objects()
        if R2.kind == R.kind and R2.p == R.p:
            o2 = o
        ref = R2.call()

        def wrap(name, fn):
            if name != where:
                return fn

            def f(*args, **kw):
                calls[0] += 1
                if calls[0] in (1, 2, 5):
                    st = np.random.get_state()
                    inner.append(R2.call(objs=o2 if o2 is not o else None))
                    np.random.set_state(st)
                return fn(*args, **kw)
            return f
        b = R.call(objs=o, wrap=wrap, callback=lambda dl: None)
        compare(ctx, a, b, "a call whose %s runs another solver" % where, inner=R2.name, **R.info)
        for r in inner:
            compare(ctx, ref, r, "a solver run inside the %s of another" % where, inner=R2.name, **R.info)
        if inner:
            ctx.count("inside a callback")
    else:
        if R.name in runs.RANDOM:
            # the seed decides, and nothing else
            R.seed += 1
            c = R.call()
            R.seed -= 1
            b = R.call()
            compare(ctx, a, b, "the same seed", **R.info)
            ctx.count("seed decides")
        else:
            st = np.random.get_state()
            b = R.call(reseed=False)
            st2 = np.random.get_state()
            ctx.check(st[2] == st2[2] and np.array_equal(st[1], st2[1]), "a deterministic solver draws from the global random generator", **R.info)
            compare(ctx, a, b, "the same call repeated", **R.info)
            ctx.count("random state untouched")
    ctx.check(np.array_equal(a.x, kept), "the solution of an earlier run was overwritten by a later one", now=a.x, was=kept, **R.info)
    ctx.check(np.geterr() == err, "the error handling of numpy was changed", **R.info)
    ctx.count("global settings untouched")
    if int(a.nit) > 0:
        ctx.key(what, R.name, digest(a.x))
    ctx.sample(history=["repeated", "after others", "shared objects", "inside", "seed"][what], **R.info)


def wl_threads(ctx, rng):
    """Deterministic solvers in several threads, some sharing their objects."""
    k = 2 + rng.randint(4)
    Rs, objs = [], []
    base = None
    for t in range(k):
        if base is not None and rng.rand() < 0.6:
            # another call on the same data, losses and penalties
            R = runs.Run(rng, name=base.name, simple=True) if rng.rand() < 0 else base
            Rs.append(R)
            objs.append(objs[Rs.index(base)])
            continue
        R = runs.Run(rng, name=DET[rng.randint(len(DET))], simple=True, max_iter=15)
        Rs.append(R)
        objs.append(R.objects())
        base = R
    want = [R.call() for R in Rs]
    got, errs, order = [None] * k, [None] * k, []
    gate = threading.Barrier(k)

    def go(t):
        try:
            gate.wait()
            got[t] = Rs[t].call(objs=objs[t], callback=lambda dl: order.append(t), reseed=False)
        except BaseException as e:  # noqa: told by the main thread
            errs[t] = e

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=go, args=(t,)) for t in range(k)]
        for q in th:
            q.start()
        for q in th:
            q.join()
    finally:
        sys.setswitchinterval(old)
    for t in range(k):
        if errs[t] is not None:
            ctx.fail("a solver fails when others run in other threads: %r" % errs[t], **Rs[t].info)
        compare(ctx, want[t], got[t], "the same call next to other threads", threads=k, **Rs[t].info)
    sw = sum(a != b for a, b in zip(order, order[1:]))
    ctx.count("threads", k)
    ctx.count("thread switches", sw)
    if sw > k:
        ctx.key("threads", tuple(order[:200]))


def wl_fun(ctx, rng):
    """Public functions: the value depends on the arguments only."""
    st = rng.get_state()
    calls = []
    for _ in range(4):
        try:
            calls.append(functions(ctx, rng)[:4])
        except Skip:
            pass
    def run(c):
        name, group, fn, args = c
        return [r.copy() for r in flat(fn(*args))] if "lipschitz" not in name and "TraceBall.lmo" not in name else None
    g = np.random.get_state()
    first = [run(c) for c in calls]
    g2 = np.random.get_state()
    order = list(range(len(calls))) * 2
    for j in rng.permutation(order):
        again = run(calls[j])
        if again is None:
            continue
        ctx.count("functions repeated")
        ctx.check(len(again) == len(first[j]) and all(a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes() for a, b in zip(again, first[j])),
                  "%s gives another value for the same arguments after other calls" % calls[j][0], first=first[j], again=again)
    # an argument array that is overwritten in place and passed again is a new argument
    for c in calls:
        name, group, fn, args = c
        j = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.dtype == float and a.ndim == 1 and a.size and a.flags.writeable]
        if not j or run(c) is None:
            continue
        j = j[rng.randint(len(j))]
        args[j][:] = args[j][::-1].copy() * 0.75 + 0.01
        again = run(c)
        other = run((name, group, fn, tuple(a.copy() if isinstance(a, np.ndarray) else a for a in args)))
        ctx.count("arguments overwritten in place")
        ctx.check(all(a.tobytes() == b.tobytes() for a, b in zip(again, other)), "%s gives the value of an earlier content of its argument" % name, got=again, expected=other)
    ctx.check(np.array_equal(g[1], g2[1]) and g[2] == g2[2], "a deterministic function draws from the global random generator", functions=[c[0] for c in calls])
    ctx.key("fun", tuple(c[0] for c in calls), digest(*[r for f in first if f for r in f]))


def wl_fun_threads(ctx, rng):
    """Public functions in several threads: same function and sizes, other values."""
    calls = []
    while len(calls) < 6:
        try:
            name, group, fn, args = functions(ctx, rng)[:4]
        except Skip:
            continue
        if "lipschitz" in name or "TraceBall.lmo" in name:
            continue
        calls.append((name, fn, args))
        j = [i for i, a in enumerate(args) if isinstance(a, np.ndarray) and a.dtype == float and a.size and a.flags.writeable]
        if j:
            j = j[rng.randint(len(j))]
            b = args[j].ravel()[::-1].reshape(args[j].shape) * 0.75 + 0.01
            calls.append((name, fn, args[:j] + (b,) + args[j + 1:]))
    want = []
    for name, fn, args in calls:
        want.append([r.copy() for r in flat(fn(*args))])
    k, reps = 4, 6
    bad, order, errs = [], [], []
    gate = threading.Barrier(k)
    seeds = rng.randint(2 ** 31 - 1, size=k)

    def go(t):
        r = np.random.RandomState(seeds[t])
        gate.wait()
        for _ in range(reps):
            for j in r.permutation(len(calls)):
                name, fn, args = calls[j]
                try:
                    again = flat(fn(*args))
                except Exception as e:  # noqa: told by the main thread
                    errs.append((name, repr(e)))
                    return
                order.append(t)
                if not (len(again) == len(want[j]) and all(a.tobytes() == b.tobytes() for a, b in zip(again, want[j]))):
                    bad.append((name, want[j], again))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=go, args=(t,)) for t in range(k)]
        for q in th:
            q.start()
        for q in th:
            q.join()
    finally:
        sys.setswitchinterval(old)
    ctx.count("functions in threads", len(order))
    ctx.count("function thread switches", sum(a != b for a, b in zip(order, order[1:])))
    if errs:
        ctx.fail("%s fails when called next to other threads: %s" % errs[0])
    if bad:
        ctx.fail("%s gives another value when other threads call public functions at the same time" % bad[0][0], alone=bad[0][1], together=bad[0][2])
    ctx.key("funthreads", tuple(order[:200]))


WORKLOADS = [("histories", wl, 2500, 50000), ("threads", wl_threads, 250, 5000), ("function threads", wl_fun_threads, 400, 8000), ("functions", wl_fun, 1500, 30000)]
