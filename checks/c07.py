"""C07: block proximal operators of the prox factories (stochastic solvers)."""
import numpy as np
from scipy import sparse
import copt.penalty as cp
from vlib import gen, ref
from vlib.core import digest
from checks.c04 import make_groups

ID = "C07"
RULE = ("random (penalty, size, touched blocks, weights, step, point): every touched block is compared with the closed form prox of the "
        "penalty on that block at the weighted step, every other entry with its previous bits; non-trivial: some entry moves; "
        "distinct by digest of point, weights and blocks")
ASSUMPTIONS = ["closed form proximal operators in long double"]
REQUIRED = ["L1", "GroupL1", "FusedLasso 1", "FusedLasso 2", "full support equals prox", "untouched entries", "blocks zeroed",
            "blocks averaged", "single feature", "unpenalised features", "large", "extreme scales"]


def support(rng, nb, full):
    """CSR pattern with the touched blocks in row i."""
    rows = 1 + rng.randint(4)
    i = rng.randint(rows)
    pat = []
    for r in range(rows):
        k = nb if full else rng.randint(0, nb + 1)
        q = rng.permutation(nb)[:k]
        pat.append(q if rng.rand() < 0.5 else np.sort(q))
    indptr = np.r_[0, np.cumsum([len(q) for q in pat])]
    indices = np.concatenate(pat) if indptr[-1] else np.zeros(0)
    t = [np.int64, np.int32][rng.randint(2)]
    return i, indices.astype(t), indptr.astype(t), pat[i]


def partition(ctx, B, n, groups, info):
    """The blocks are the groups, every other feature is alone, in order."""
    ctx.check(sparse.issparse(B) and B.shape[1] == n and B.format == "csr", "blocks are not a csr matrix with n_features columns", **info)
    rows = [list(B.indices[B.indptr[k]: B.indptr[k + 1]]) for k in range(B.shape[0])]
    got = [r for r in rows if r]
    covered = {j for g in groups for j in g}
    expected = sorted([list(map(int, g)) for g in groups] + [[j] for j in range(n) if j not in covered])
    ctx.check(sorted(map(lambda r: list(map(int, r)), got)) == expected and len(got) == len(rows),
              "blocks of the factory are not the groups of the penalty", blocks=rows, expected=expected, **info)
    # the layout that the solvers rely on: features of the blocks enumerated in order
    ctx.check(np.array_equal(B.indices, np.arange(n)), "features of the blocks are not enumerated in order", blocks=rows, **info)
    ctx.check(np.array_equal(B.T.tocsr().indices, np.repeat(np.arange(B.shape[0]), np.diff(B.indptr))), "a feature is in several blocks", blocks=rows, **info)
    return rows


def block_prox(kind, pen_block, v, t, alpha):
    v = ref._ld(v)
    if not pen_block:
        return v
    if kind == "L1":
        return ref.soft(v, t)
    if kind == "GroupL1":
        nrm = np.sqrt((v * v).sum())
        return v * max(1 - t / nrm, 0) if nrm > 0 else v * 0
    m, h = v.sum() / 2, (v[0] - v[1]) / 2
    h = ref.soft(h, t)
    return np.array([m + h, m - h])


def wl(ctx, rng):
    kind = ["L1", "GroupL1", "GroupL1", "FusedLasso 1", "FusedLasso 2"][rng.randint(5)]
    n = gen.size(rng, big=0.02)
    if rng.rand() < 0.1:
        n = 1 + rng.randint(3)
    x, vk = gen.vec(rng, n)
    if rng.rand() < 0.1:
        x = rng.randn(n) * 10.0 ** rng.uniform(-140, 140)
        if rng.rand() < 0.3:
            x *= 10.0 ** rng.uniform(-5, 5, n)
        ctx.count("extreme scales")
    sc = np.abs(x).max() or 1.0
    span = 20 if rng.rand() < 0.1 else 0
    alpha = float(sc * 10.0 ** rng.uniform(-3 - span, 1 + span)) if rng.rand() < 0.95 else 0.0
    step = [1.0, 0.5, 0.1, 2.0][rng.randint(4)]
    if rng.rand() < 0.3:
        step = float(rng.rand() + 1e-3)
    if kind == "L1":
        P = cp.L1Norm(alpha)
        prox, B = P.prox_factory(n)
        groups = [[j] for j in range(n)]
    elif kind == "GroupL1":
        groups = make_groups(rng, n)
        P = cp.GroupL1(alpha, groups)
        prox, B = P.prox_factory(n)
    else:
        P = cp.FusedLasso(alpha)
        first = 0 if kind == "FusedLasso 1" else 1
        prox, B = (P.prox_1_factory if first == 0 else P.prox_2_factory)(n)
        groups = [[j, j + 1] for j in range(first, n - 1, 2)]
    info = dict(penalty=kind, n_features=n, alpha=alpha, step=step, groups=repr(groups)[:300])
    rows = partition(ctx, B, n, groups, info)
    gset = {int(g[0]): len(g) for g in groups}
    for again in range(2):  # the operator has no memory of previous calls
        full = rng.rand() < 0.3
        i, indices, indptr, touched = support(rng, len(rows), full)
        d = np.ones(len(rows)) if rng.rand() < 0.3 else 1 / (rng.rand(len(rows)) + [0.02, 1e-4][rng.randint(2)])
        if rng.rand() < 0.5:
            d = np.round(d) + 1.0
        z = x.copy()
        changed = gen.freeze(indices, indptr, d)
        prox(z, i, indices, indptr, d, step)
        ctx.check(changed() is None, "the block prox modified its arguments", **info)
        expected = ref._ld(x).copy()
        tol = np.zeros(n)
        for h in touched:
            r = rows[h]
            pen = int(r[0]) in gset and len(r) == gset[int(r[0])]
            t = ref.LD(alpha) * ref.LD(step) * ref.LD(d[h])
            expected[r] = block_prox(kind, pen, x[r], t, alpha)
            tol[r] = 8 * (4 + len(r)) * ref.EPS * np.abs(x[r]).max() if pen else 0  # what is left is smaller than x
            if pen and not np.any(expected[r]) and np.any(x[r]):
                ctx.count("blocks zeroed")
            if pen and kind.startswith("Fused") and expected[r[0]] == expected[r[1]]:
                ctx.count("blocks averaged")
            if not pen:
                ctx.count("unpenalised features")
        un = np.ones(n, bool)
        for h in touched:
            un[rows[h]] = False
        info2 = dict(info, x=x, got=z, d=d, touched=[int(h) for h in touched])
        ctx.check(z[un].tobytes() == x[un].tobytes(), "the block prox modified entries out of the support of the sample", **info2)
        ctx.count("untouched entries", int(un.sum()))
        ctx.check(np.all(np.abs(z - expected) <= tol), "the block prox is not the prox of the penalty on its blocks",
                  expected=expected.astype(float), **info2)
        if full and np.all(d == 1) and not kind.startswith("Fused"):
            full_p = P.prox(x.copy(), step)
            ctx.check(np.all(np.abs(full_p - z) <= 2 * tol + 8 * ref.EPS * np.abs(x)), "block prox over all the blocks differs from the prox of the penalty", full=full_p, **info2)
            ctx.count("full support equals prox")
        if np.any(z != x):
            ctx.key(kind, digest(x, d, indices), alpha, step)
    ctx.count(kind)
    if n == 1:
        ctx.count("single feature")
    ctx.sample(**info)


def wl_split(ctx, rng):
    """The two halves of the fused lasso add up to the penalty (each pair of neighbours in exactly one block)."""
    n = gen.size(rng, big=0.05)
    P = cp.FusedLasso(1.0)
    pairs = []
    for f in (P.prox_1_factory, P.prox_2_factory):
        prox, B = f(n)
        # what the operator really couples: touch everything, with a huge step
        for j in range(n):
            x = np.zeros(n)
            x[j] = 1.0
            nb = B.shape[0]
            prox(x, 0, np.arange(nb), np.array([0, nb]), np.ones(nb), 100.0)
            nz = np.nonzero(x)[0]
            if len(nz) == 2 and nz[0] == j:
                pairs.append((int(nz[0]), int(nz[1])))
            ctx.check(len(nz) in (1, 2) and abs(x.sum() - 1) < 1e-12, "half of the fused lasso couples the wrong features", n=n, j=j, x=x)
    ctx.check(sorted(pairs) == [(j, j + 1) for j in range(n - 1)], "the halves of the fused lasso do not cover each neighbour pair once", n=n, pairs=pairs)
    if n > 1:
        ctx.key("split", n)


WORKLOADS = [("blocks", wl, 5000, 80000), ("large", gen.large(wl, (600, 2100, 33000)), 40, 400, {"heavy": True}), ("split", wl_split, 60, 300)]
