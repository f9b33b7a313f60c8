"""C21: sparse kernels and helper functions."""
import numpy as np
from scipy import sparse
from copt import utils
from vlib import gen, prob
from vlib.core import digest, Skip

ID = "C21"
RULE = ("random inputs of the sparse kernels, the sampling of batches, the sum of sparse and dense terms, the initial Lipschitz estimate and the composition of objective and gradient; non-trivial: a result "
        "that is not all zero; distinct by digest of the result")
ASSUMPTIONS = ["indices of rows lie in the matrix, the vector has the length of the matrix or of the index", "objectives of the Lipschitz estimate are convex with Lipschitz gradient"]
REQUIRED = ["mv", "vm", "mv repeated rows", "vm repeated rows", "empty index", "rows without entries", "batches", "batches of all samples", "batch pairs", "many samples", "big matrices", "sparse + sparse", "sparse + dense", "dense + sparse", "dense + dense",
            "column + vector", "lipschitz estimates", "lipschitz estimates with sparse gradients", "estimates above the first guess", "composed gradients", "step sizes parsed", "step sizes rejected"]


def wl_csr(ctx, rng):
    n, p = gen.size(rng, 0.03), gen.size(rng, 0.03)
    if n * p > 30000:
        raise Skip
    A0, _ = gen.dense_matrix(rng, n, p)
    fm = ["csr", "csr_unsorted", "csr_explicit0", "csr_dup", "csr64", "csr_emptyrows", "csr_readonly"]
    A, fmt, D = gen.as_format(rng, A0, allow=fm)
    if rng.rand() < 0.15:
        A, D = sparse.csr_matrix(np.round(D)).astype(np.int8 if np.abs(D).max() < 100 else int), np.round(D)
        fmt = "csr int"
    m = [0, 1, 2, n, 3 * n][rng.randint(5)]
    idx = rng.randint(n, size=m)
    ity = [np.int64, np.int32, np.intp][rng.randint(3)]
    idx = idx.astype(ity)
    if m and rng.rand() < 0.3:
        idx = gen.layout(rng, idx, ["readonly", "reversed"][rng.randint(2)])[0]
    info = dict(fmt=fmt, n=n, p=p, rows=m, index=str(ity.__name__))
    if m == 0:
        ctx.count("empty index")
    if m and np.any(np.diff(A.indptr)[idx] == 0):
        ctx.count("rows without entries")
    x = gen.vec(rng, p)[0]
    if rng.rand() < 0.1:
        x = np.round(np.clip(x, -99, 99)).astype(int)
    x = gen.layout(rng, x, ["C", "strided", "readonly", "reversed"][rng.randint(4)])[0] if rng.rand() < 0.5 else x
    changed = gen.freeze(A, x, idx)
    y = utils.fast_csr_mv(A.data, A.indptr, A.indices, x, idx)
    S = D[idx]
    err = 4e-16 * (p + 4) * (np.abs(S).astype(np.longdouble).dot(np.abs(x.astype(np.longdouble)))) * 2 + 1e-300
    ref = S.astype(np.longdouble).dot(x.astype(np.longdouble))
    ok = np.isfinite(ref.astype(float))
    ctx.check(isinstance(y, np.ndarray) and y.shape == (m,) and y.dtype == float, "fast_csr_mv does not return a vector with one entry per row", got=repr(y)[:100], **info)
    ctx.check(np.all(np.abs(y - ref)[ok] <= err[ok]), "fast_csr_mv is not the product of the rows and the vector", got=y, expected=ref.astype(float), x=x, idx=idx, **info)
    ctx.count("mv")
    if len(set(idx.tolist())) < m:
        ctx.count("mv repeated rows")
        ctx.count("vm repeated rows")
    v = gen.vec(rng, max(m, 1))[0][:m]
    changed2 = gen.freeze(v)
    z = utils.fast_csr_vm(v, A.data, A.indptr, A.indices, p, idx)
    ref = v.astype(np.longdouble).dot(S.astype(np.longdouble))
    err = 4e-16 * (2 * m + 4) * np.abs(v).astype(np.longdouble).dot(np.abs(S).astype(np.longdouble)) * 2 + 1e-300
    ok = np.isfinite(ref.astype(float))
    ctx.check(isinstance(z, np.ndarray) and z.shape == (p,) and z.dtype == float, "fast_csr_vm does not return a vector of the given dimension", got=repr(z)[:100], **info)
    ctx.check(np.all(np.abs(z - ref)[ok] <= err[ok]), "fast_csr_vm is not the product of the vector and the rows", got=z, expected=ref.astype(float), v=v, idx=idx, **info)
    ctx.count("vm")
    ctx.check(changed() is None and changed2() is None, "a sparse kernel modified its input", **info)
    if np.any(y) or np.any(z):
        ctx.key(digest(y, z))
    ctx.sample(**info)
    # a larger output dimension than the number of columns is padded with zeros
    if rng.rand() < 0.2:
        w = utils.fast_csr_vm(v, A.data, A.indptr, A.indices, p + 3, idx)
        ctx.check(w.shape == (p + 3,) and np.array_equal(w[:p], z) and not w[p:].any(), "fast_csr_vm with a larger dimension is not padded with zeros", got=w, expected=z, **info)
    if m:
        bad = np.zeros(m + 1)
        try:
            utils.fast_csr_vm(bad, A.data, A.indptr, A.indices, p, idx)
        except Exception:
            pass
        else:
            ctx.fail("fast_csr_vm accepts a vector that does not match the rows", **info)


def wl_batches(ctx, rng):
    n = 1 + rng.randint(30)
    bs = [1, n, 1 + rng.randint(n)][rng.randint(3)]
    nb = [0, 1, 2, 25][rng.randint(4)]
    idx = utils.sample_batches(n, nb, bs)
    info = dict(n=n, batches=nb, size=bs)
    ctx.check(isinstance(idx, np.ndarray) and idx.shape == (nb * bs,) and np.issubdtype(idx.dtype, np.integer), "sample_batches does not return the indices of all batches", got=idx, **info)
    ctx.check(np.all((idx >= 0) & (idx < n)), "sampled index out of range", got=idx, **info)
    for k in range(nb):
        b = idx[k * bs:(k + 1) * bs]
        ctx.check(len(set(b.tolist())) == bs, "a sample is drawn twice in a batch", got=b, **info)
        ctx.count("batches")
        if bs == n:
            ctx.count("batches of all samples")
    if nb:
        ctx.key("batches", digest(idx), n)


def wl_batch_stats(ctx, rng):
    """Every sample and every pair of samples have the same probability, consecutive batches are independent."""
    n = 2 + rng.randint(6)
    bs = 1 + rng.randint(n)
    nb = 3000
    idx = utils.sample_batches(n, nb, bs).reshape(nb, bs)
    info = dict(n=n, size=bs)
    M = np.zeros((nb, n))
    M[np.arange(nb)[:, None], idx] = 1
    q = bs / n
    c = M.sum(0)
    ctx.check(np.all(np.abs(c - nb * q) <= 8 * np.sqrt(nb * q * (1 - q))), "the samples are not uniform", counts=c, **info)
    pairs = M[:-1].T.dot(M[1:])
    r = q * q
    # two consecutive pairs share a batch, hence the factor
    ctx.check(np.all(np.abs(pairs - (nb - 1) * r) <= 12 * np.sqrt(nb * r * (1 - r))), "consecutive batches are not independent", counts=pairs, expected=(nb - 1) * r, **info)
    same = M.T.dot(M)
    r2 = q * (bs - 1) / (n - 1)
    off = same[~np.eye(n, dtype=bool)]
    ctx.check(np.all(np.abs(off - nb * r2) <= 8 * np.sqrt(nb * r2 * (1 - r2)) + 1e-9), "the pairs of samples of a batch are not uniform", counts=same, expected=nb * r2, **info)
    ctx.count("batch pairs", nb - 1)
    ctx.key("stats", n, bs, digest(idx))


def wl_big(ctx, rng):
    """Numbers of samples, features and draws that no narrow index type holds."""
    if rng.rand() < 0.5:
        n = [300, 33000, 40000, 70001, 140000, 300000][rng.randint(6)] + rng.randint(500)
        bs = min(n, [1, 7, 200, 5000, n // 3, n][rng.randint(6)])
        nb = max(1, min(40, 100000 // bs)) + rng.randint(3)
        idx = utils.sample_batches(n, nb, bs)
        info = dict(n=n, batches=nb, size=bs)
        ctx.check(idx.shape == (nb * bs,) and idx.min() >= 0 and idx.max() < n, "sampled index out of range", got=(idx.shape, idx.min(), idx.max()), **info)
        for k in range(nb):
            b = np.asarray(idx[k * bs:(k + 1) * bs])
            ctx.check(len(np.unique(b)) == bs, "a sample is drawn twice in a batch", batch=k, **info)
        if nb * bs >= 400:
            # eight stretches of the samples are drawn in proportion to their length
            m = nb * bs
            c = np.histogram(idx, bins=8, range=(0, n))[0]
            ctx.check(np.all(np.abs(c - m / 8) <= 9 * np.sqrt(m / 8) + nb), "stretches of the samples are not drawn equally often", counts=c, expected=m / 8, **info)
            ctx.count("many samples")
        ctx.key("big", n, digest(idx[:50]))
        return
    n, p = [(40, 70000 + rng.randint(1000)), (70000 + rng.randint(1000), 30), (140000, 140000)][rng.randint(3)]
    k = 400
    rows, cols = rng.randint(n, size=k), rng.randint(p, size=k)
    A = sparse.csr_matrix((rng.randn(k), (rows, cols)), shape=(n, p))
    ity = [np.int32, np.int64][rng.randint(2)]
    idx = rows[rng.randint(k, size=60)].astype(ity)
    x = rng.randn(p)
    got = utils.fast_csr_mv(A.data, A.indptr, A.indices, x, idx)
    exp = np.array([(A.data[A.indptr[i]:A.indptr[i + 1]] * x[A.indices[A.indptr[i]:A.indptr[i + 1]]]).sum() for i in idx])
    ctx.check(np.all(np.abs(got - exp) <= 1e-12 * (1 + np.abs(exp))), "fast_csr_mv is not the product of the rows and the vector", n=n, p=p)
    v = rng.randn(60)
    got = utils.fast_csr_vm(v, A.data, A.indptr, A.indices, p, idx)
    exp = np.zeros(p)
    for t, i in enumerate(idx):
        np.add.at(exp, A.indices[A.indptr[i]:A.indptr[i + 1]], v[t] * A.data[A.indptr[i]:A.indptr[i + 1]])
    ctx.check(got.shape == (p,) and np.all(np.abs(got - exp) <= 1e-12 * (1 + np.abs(exp))), "fast_csr_vm is not the product of the vector and the rows", n=n, p=p)
    ctx.count("big matrices")
    ctx.key("bigcsr", digest(got[got != 0]))


def wl_add(ctx, rng):
    n, p = 1 + rng.randint(6), 1 + rng.randint(6)
    f = lambda M: getattr(sparse, ["csr", "csc", "coo", "lil", "dok", "bsr"][rng.randint(6)] + "_matrix")(M)
    k = rng.randint(5)
    if k == 4:
        # column or row against a vector
        v, w = rng.randn(n), np.round(rng.randn(n), 1)
        col = f(w[:, None] if rng.rand() < 0.5 else w[None, :])
        r = rng.randint(2)
        got = utils.safe_sparse_add(col, v) if r else utils.safe_sparse_add(v, col)
        ctx.check(isinstance(got, np.ndarray) and got.shape == (n,) and np.array_equal(got, v + w), "the sum of a sparse column and a vector is not a vector", got=got, expected=v + w, sparse_first=bool(r))
        ctx.count("column + vector")
        ctx.key("add", digest(got))
        return
    A, B = rng.randn(n, p) * (rng.rand(n, p) < 0.5), rng.randn(n, p) * (rng.rand(n, p) < 0.5)
    a = f(A) if k in (0, 1) else A
    b = f(B) if k in (0, 2) else B
    if k == 3 and rng.rand() < 0.5:
        A, B = A[0], B[0]
        a, b = A, B
    if k == 3 and rng.rand() < 0.2:
        B = b = 0.0 if rng.rand() < 0.5 else 2.5
    got = utils.safe_sparse_add(a, b)
    ctx.check(sparse.issparse(got) == (k == 0), "the sum has the wrong storage", kind=k)
    got = got.toarray() if sparse.issparse(got) else got
    ctx.check(np.shape(got) == np.shape(A) and np.array_equal(got, A + B), "safe_sparse_add is not the sum", got=got, expected=A + B, kind=k)
    ctx.count(["sparse + sparse", "sparse + dense", "dense + sparse", "dense + dense"][k])
    ctx.key("add", digest(np.asarray(got)))


def wl_init(ctx, rng):
    """The estimate allows a gradient step that does not increase the objective, and is the first power of ten that does."""
    n = 1 + rng.randint(8)
    S = prob.Smooth(rng, n, scale=10.0 ** rng.randint(-5, 10))
    x0 = gen.vec(rng, n)[0]
    x0 = x0 / max(1.0, np.abs(x0).max() / 100)
    calls = []
    sp = rng.rand() < 0.2

    def f_grad(x, return_gradient=True):
        x = x.toarray().ravel() if sparse.issparse(x) else x
        calls.append(np.array(x))
        f, g = S.f_grad(x)
        return (f, sparse.csc_matrix(g).T) if sp else (f, g)

    before = x0.tobytes()
    L = utils.init_lipschitz(f_grad, x0)
    info = dict(problem=S.name, L_true=S.L, sparse_gradient=sp)
    ctx.check(x0.tobytes() == before, "init_lipschitz modified the starting point")
    ctx.check(np.ndim(L) == 0 and np.isfinite(L) and L > 0, "the initial Lipschitz estimate is not a positive number", got=L, **info)
    f0, g0 = S.f_grad(x0)
    at = lambda l: S.f_grad(x0 - g0 / l)[0]
    noise = 1e-12 * (abs(f0) + 1)
    ctx.check(at(L) <= f0 + noise, "a step of one over the initial Lipschitz estimate increases the objective", got=L, f0=f0, f1=at(L), **info)
    ctx.check(L <= max(1e-3, 10 * S.L * (1 + 1e-9)) or np.linalg.norm(g0) ** 2 / S.L < 1e-9 * (abs(f0) + 1), "the initial Lipschitz estimate is more than ten times too large", got=L, **info)
    if L > 1.1e-3:
        ctx.count("estimates above the first guess")
        ctx.check(not at(L / 10) < f0 - noise, "the initial Lipschitz estimate is not the smallest tried that decreases the objective", got=L, **info)
    ctx.check(all(np.all(np.isfinite(c)) for c in calls) and len(calls) <= 110, "init_lipschitz evaluates the objective out of reason", calls=len(calls), **info)
    ctx.count("lipschitz estimates")
    if sp:
        ctx.count("lipschitz estimates with sparse gradients")
    ctx.key("init", L, digest(x0), S.name)


def wl_compose(ctx, rng):
    """build_func_grad: the value and the gradient it returns belong to the point it is called with, in any order of the calls."""
    n = 1 + rng.randint(5)
    S = prob.Smooth(rng, n, scale=1.0)
    c = rng.randn(n)
    args = [(), (c,)][rng.randint(2)]
    t = lambda x, a: a[0] if a else 0.0 * x
    fun = lambda x, *a: S.f(x) + float(np.sum(t(x, a) * x))
    grad = lambda x, *a: S.grad(x) + t(x, a)
    mode = rng.randint(4)
    eps = 1e-7
    if mode == 0:
        fg = utils.build_func_grad(True, lambda x, *a: (fun(x, *a), grad(x, *a)), args, eps)
    elif mode == 1:
        fg = utils.build_func_grad(grad, fun, args, eps)
    elif mode == 2:
        fg = utils.build_func_grad("2-point", fun, args, eps)
    else:
        fg = utils.build_func_grad(False, lambda x, *a: (fun(x, *a), grad(x, *a)), args, eps)
    pts = [rng.randn(n) for _ in range(3)]
    buf = np.zeros(n)
    for _ in range(8):
        k = rng.randint(3)
        if rng.rand() < 0.5:
            buf[:] = pts[k]  # the same memory with other values
            x = buf
        else:
            x = pts[k].copy()
        f, g = fg(x)
        tol = 1e-4 * (1 + S.L) if mode == 2 else 1e-12 * (1 + S.L)
        ctx.check(abs(f - fun(x, *args)) <= 1e-12 * (1 + abs(f)), "the value returned is not that of the point", got=f, expected=fun(x, *args), mode=mode, x=x)
        ctx.check(np.all(np.abs(g - grad(x, *args)) <= tol * (1 + np.abs(g).max())), "the gradient returned is not that of the point", got=g, expected=grad(x, *args), mode=mode, x=x)
        ctx.count("composed gradients")
    ctx.key("compose", mode, digest(*pts))


def wl_parse(ctx, rng):
    s = 10.0 ** rng.uniform(-5, 5)
    fn = lambda *a: s
    ctx.check(utils.parse_step_size(s) == (s, "fixed"), "parse_step_size of a float", got=utils.parse_step_size(s))
    ctx.check(utils.parse_step_size("adaptive") == (1, "adaptive"), "parse_step_size of 'adaptive'")
    r = utils.parse_step_size(fn)
    ctx.check(r[0] == 1 and r[1] is fn, "parse_step_size of a callable", got=r)
    t = utils.parse_step_size((s, fn))
    ctx.check(t[0] == s and t[1] is fn, "parse_step_size of a pair", got=t)
    ctx.count("step sizes parsed")
    for bad in ["adaptative", 3, None]:
        try:
            utils.parse_step_size(bad)
        except ValueError:
            ctx.count("step sizes rejected")
        else:
            ctx.fail("parse_step_size accepts an unknown step size", step_size=bad)
    ctx.key("parse", s)


WORKLOADS = [("csr", wl_csr, 2500, 40000), ("batches", wl_batches, 1500, 25000), ("batch statistics", wl_batch_stats, 60, 800), ("big", wl_big, 60, 1500), ("add", wl_add, 1200, 20000), ("init", wl_init, 2000, 40000),
             ("compose", wl_compose, 600, 10000), ("parse", wl_parse, 20, 200)]
