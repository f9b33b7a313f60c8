"""Hostile input generators."""
import numpy as np
from scipy import sparse

EPS = np.finfo(float).eps
SIZES = [1, 2, 3, 4, 5, 7, 8, 13, 16, 17, 31, 33, 64, 65, 100]
BIG = [127, 128, 129, 255, 256, 257, 300, 512, 513, 1000, 1023, 1025, 2000]

VEC_KINDS = ["normal", "normal", "normal", "ties", "zeros", "const", "sparse", "huge", "tiny",
             "sorted", "rsorted", "alternating", "onehot", "steps", "negative", "positive",
             "mixed", "signedzero", "ramp", "near ties"]
FORCED = None


def large(fn, sizes=(1500, 2049, 2500, 5000, 33000)):
    """The workload fn at sizes beyond those it usually draws."""

    def wl(ctx, rng):
        global FORCED
        FORCED = int(sizes[rng.randint(len(sizes))]) + int(rng.randint(3))
        try:
            fn(ctx, rng)
        finally:
            FORCED = None
        ctx.count("large")

    return wl


def size(rng, big=0.1, lo=1):
    if FORCED is not None:
        return FORCED
    if rng.rand() < big:
        return int(BIG[rng.randint(len(BIG))])
    c = [s for s in SIZES if s >= lo]
    return int(c[rng.randint(len(c))])


def vec(rng, n, kind=None, scale=None):
    """Vector of float64, with the kind used."""
    if kind is None:
        kind = VEC_KINDS[rng.randint(len(VEC_KINDS))]
    v = rng.randn(n)
    if kind == "ties":
        v = np.round(v * 2) / 2
    elif kind == "zeros":
        v = np.zeros(n)
    elif kind == "const":
        v = np.full(n, rng.randn())
    elif kind == "sparse":
        v = v * (rng.rand(n) < 0.3)
    elif kind == "huge":
        v = v * 10.0 ** rng.randint(2, 7)
    elif kind == "tiny":
        v = v * 10.0 ** -rng.randint(3, 12)
    elif kind == "sorted":
        v = np.sort(v)
    elif kind == "rsorted":
        v = np.sort(v)[::-1].copy()
    elif kind == "alternating":
        v = np.where(np.arange(n) % 2 == 0, 1.0, -1.0) * abs(rng.randn())
    elif kind == "onehot":
        v = np.zeros(n)
        v[rng.randint(n)] = rng.randn() * 3
    elif kind == "steps":
        k = max(1, n // rng.randint(1, 9))
        v = np.repeat(rng.randn((n + k - 1) // k), k)[:n].copy()
    elif kind == "negative":
        v = -np.abs(v)
    elif kind == "positive":
        v = np.abs(v)
    elif kind == "mixed":
        v = v * 10.0 ** rng.randint(-6, 6, size=n)
    elif kind == "signedzero":
        v = np.where(rng.rand(n) < 0.5, -0.0, np.where(rng.rand(n) < 0.5, 0.0, v))
    elif kind == "near ties":
        v = (rng.randn() or 1.0) * (1 + 10.0 ** -rng.randint(7, 14) * v) * (rng.choice([-1, 1], size=n) if rng.rand() < 0.5 else 1)
    elif kind == "ramp":
        v = np.arange(n) * rng.randn() / max(n, 1)
    if scale is not None:
        v = v * scale
    return np.ascontiguousarray(v, dtype=float), kind


def spectrum(rng, m, n):
    """Matrix with singular values over many orders of magnitude."""
    k = min(m, n)
    U, V = np.linalg.qr(rng.randn(m, k))[0], np.linalg.qr(rng.randn(n, k))[0]
    return (U * 10.0 ** rng.uniform(-13, 0, k)).dot(V.T)


LAYOUTS = ["plain", "plain", "strided", "readonly", "reversed", "float32", "fortran_col"]


def layout(rng, v, which=None, f32=True):
    """Same values (up to float32 rounding), hostile memory layout."""
    if which is None:
        which = LAYOUTS[rng.randint(len(LAYOUTS))]
        if which == "float32" and not f32:
            which = "plain"
    if which == "strided":
        big = np.full(2 * v.size + 1, np.nan)
        big[1::2][: v.size] = v
        out = big[1::2][: v.size]
    elif which == "reversed":
        out = v[::-1].copy()[::-1]
    elif which == "readonly":
        out = v.copy()
        out.setflags(write=False)
    elif which == "float32":
        out = v.astype(np.float32)
    elif which == "fortran_col":
        big = np.full((v.size, 3), np.nan, order="C")
        big[:, 1] = v
        out = big[:, 1]
    else:
        out = v.copy()
    return out, which


DENSE = ["C", "C", "F", "stridedcols", "transposed", "readonly", "float32", "int"]
SPARSE = ["csr", "csr", "csc", "coo", "lil", "dok", "dia", "bsr", "csr_unsorted",
          "csr_explicit0", "csr_dup", "csr64", "csr_emptyrows", "coo_dup", "csr_readonly"]


def dense_matrix(rng, n, p, kind=None):
    kinds = ["normal", "normal", "sparse", "ties", "lowrank", "badscale", "onesided", "zerocol", "binary"]
    if kind is None:
        kind = kinds[rng.randint(len(kinds))]
    A = rng.randn(n, p)
    if kind == "sparse":
        A = A * (rng.rand(n, p) < 0.35)
    elif kind == "ties":
        A = np.round(A)
    elif kind == "lowrank":
        r = max(1, min(n, p) // 2)
        A = rng.randn(n, r).dot(rng.randn(r, p))
    elif kind == "badscale":
        A = A * 10.0 ** rng.randint(-3, 3, size=p)
    elif kind == "onesided":
        A = np.abs(A)
    elif kind == "zerocol":
        A[:, rng.rand(p) < 0.3] = 0
    elif kind == "binary":
        A = (rng.rand(n, p) < 0.5).astype(float)
    if not np.any(A):
        A[rng.randint(n), rng.randint(p)] = 1.0
    return A, kind


def as_format(rng, A, fmt=None, allow=None):
    """A in the given storage; returns (matrix, fmt, dense float64 values of it)."""
    if fmt is None:
        pool = allow or (DENSE + SPARSE)
        if max(A.shape) > 1000:
            pool = [f for f in pool if f != "dia"]  # would store a square matrix
        fmt = pool[rng.randint(len(pool))]
    n, p = A.shape
    if fmt == "C":
        M = np.ascontiguousarray(A)
    elif fmt == "F":
        M = np.asfortranarray(A)
    elif fmt == "stridedcols":
        big = np.full((n, 2 * p), np.nan)
        big[:, ::2] = A
        M = big[:, ::2]
    elif fmt == "transposed":
        M = np.ascontiguousarray(A.T).T
    elif fmt == "readonly":
        M = A.copy()
        M.setflags(write=False)
    elif fmt == "float32":
        M = A.astype(np.float32)
    elif fmt == "int":
        dt = [int, np.int8, np.int16, np.int32, np.uint8][rng.randint(5)]
        M = np.round(np.clip(A, 0 if dt is np.uint8 else -50, 50)).astype(dt)
        if not M.any():
            M[0, 0] = 1
    elif fmt in ("csr", "csc", "coo", "lil", "dok", "dia", "bsr"):
        M = getattr(sparse, fmt + "_matrix")(A)
    elif fmt == "csr_unsorted":
        M = sparse.csr_matrix(A)
        for i in range(n):
            s = slice(M.indptr[i], M.indptr[i + 1])
            q = rng.permutation(M.indptr[i + 1] - M.indptr[i])
            M.indices[s] = M.indices[s][q]
            M.data[s] = M.data[s][q]
        M.has_sorted_indices = False
    elif fmt == "csr_explicit0":
        mask = (A != 0) | (rng.rand(n, p) < 0.2)
        C = sparse.coo_matrix(mask)
        M = sparse.csr_matrix((A[C.row, C.col], (C.row, C.col)), shape=(n, p))
    elif fmt in ("csr_dup", "coo_dup"):
        C = sparse.coo_matrix(A)
        f = rng.rand(C.nnz)
        if fmt == "coo_dup":
            M = sparse.coo_matrix((np.r_[C.data * f, C.data * (1 - f)],
                                   (np.r_[C.row, C.row], np.r_[C.col, C.col])), shape=(n, p))
        else:
            R = sparse.csr_matrix(A)
            g = rng.rand(R.nnz)
            data = np.c_[R.data * g, R.data * (1 - g)].ravel()
            M = sparse.csr_matrix((data, np.repeat(R.indices, 2), R.indptr * 2), shape=(n, p))
    elif fmt == "csr64":
        M = sparse.csr_matrix(A)
        M.indices = M.indices.astype(np.int64)
        M.indptr = M.indptr.astype(np.int64)
    elif fmt == "csr_emptyrows":
        B = A.copy()
        if n > 1:
            B[rng.rand(n) < 0.3] = 0
            if not B.any():
                B[0] = 1.0
        M = sparse.csr_matrix(B)
    elif fmt == "csr_readonly":
        M = sparse.csr_matrix(A)
        for f in (M.data, M.indices, M.indptr):
            f.setflags(write=False)
    else:
        raise ValueError(fmt)
    D = M.toarray() if sparse.issparse(M) else np.array(M)
    return M, fmt, D.astype(float)


def freeze(*objs):
    """Snapshot of everything a call must not modify; returns a function that tells what changed."""
    snaps = []
    for o in objs:
        if o is None:
            continue
        if sparse.issparse(o):
            if hasattr(o, "data") and isinstance(o.data, np.ndarray) and o.format not in ("lil", "dok"):
                for nm in ("data", "indices", "indptr", "row", "col", "offsets"):
                    a = getattr(o, nm, None)
                    if isinstance(a, np.ndarray):
                        snaps.append((nm, a, a.copy()))
            else:
                D = o.toarray()
                snaps.append(("sparse", o, D))
        elif isinstance(o, np.ndarray):
            snaps.append(("array", o, o.copy()))
        elif isinstance(o, dict):
            snaps.append(("dict", o, dict(o)))

    def changed():
        for nm, o, c in snaps:
            if isinstance(o, np.ndarray):
                if o.shape != c.shape or o.dtype != c.dtype or o.tobytes() != c.tobytes():
                    return nm
            elif nm == "dict":
                if o != c:
                    return nm
            else:
                if not np.array_equal(o.toarray(), c):
                    return nm
        return None

    return changed
