"""C23: the loaders return the data as published."""
import os

import numpy as np
import bz2  # noqa: F401 (lazily imported by the loaders)
import sklearn.datasets  # noqa: F401
import copt.datasets
from vlib import fakenet, gen
from vlib.core import digest, Skip

ID = "C23"
RULE = ("random published files served by a stand-in for the servers, loaded with every loader, subset and form of the data folder; non-trivial: data returned; distinct by digest of the data; images of every size")
ASSUMPTIONS = ["published archives have the layout of the real ones, the largest index of a matrix is present", "no tensorflow: files are local"]
REQUIRED = ["load_" + n for n in fakenet.SUBSETS + fakenet.TRAIN + fakenet.SVM] + ["subset train", "subset test", "subset full", "later loads", "without network", "custom folder", "folder created", "unknown subset", "corrupt download", "images",
                                                                              "urls requested", "local train files only"]


def loader(box, name):
    return getattr(box.mod, "load_" + name)


def wl_archive(ctx, rng):
    name = (fakenet.SUBSETS + fakenet.TRAIN)[rng.randint(5)]
    data, (Xtr, ytr), (Xte, yte) = fakenet.archive(rng, name)
    server = fakenet.Server({fakenet.URL[name]: data}, chunk=[1 << 20, 64, 1000][rng.randint(3)])
    with fakenet.Sandbox(server, existing=rng.rand() < 0.5) as box:
        kw = {}
        if rng.rand() < 0.5:
            kw["data_dir"] = os.path.join(box.root, "elsewhere")
            ctx.count("custom folder")
        elif not os.path.exists(box.dir):
            ctx.count("folder created")
        first = True
        for _ in range(1 + rng.randint(4)):
            if name in fakenet.SUBSETS:
                sub = [None, "train", "test", "full"][rng.randint(4)]
                args = () if sub is None else (sub,)
                sub = sub or "full"
            else:
                sub, args = "train", ()
            X, y = loader(box, name)(*args, **kw)
            info = dict(name=name, subset=sub, first=first)
            if sub == "train":
                eX, ey = Xtr.toarray(), ytr
            elif sub == "test":
                eX, ey = Xte.toarray(), yte
            else:
                eX, ey = np.vstack((Xtr.toarray(), Xte.toarray())), np.concatenate((ytr, yte))
            ctx.check(X.shape == eX.shape and X.format == "csr" and np.array_equal(X.toarray(), eX), "the data is not that of the published files", got=X.toarray() if hasattr(X, "toarray") else repr(X)[:200], expected=eX, **info)
            ctx.check(X.dtype == Xtr.dtype, "the data does not have the type of the published files", got=str(X.dtype), expected=str(Xtr.dtype), **info)
            ctx.check(isinstance(y, np.ndarray) and y.shape == ey.shape and np.array_equal(y, ey), "the labels are not those of the published files", got=y, expected=ey, **info)
            ctx.count("subset " + sub)
            ctx.count("load_" + name)
            if first:
                ctx.check(server.requests == [fakenet.URL[name]], "the dataset is not downloaded once from its address", got=server.requests, **info)
                ctx.count("urls requested")
                # from now on the network is gone
                if rng.rand() < 0.7:
                    server.files.clear()
                    ctx.count("without network")
            else:
                ctx.check(len(server.requests) == 1, "the dataset is downloaded again", got=server.requests, **info)
                ctx.count("later loads")
            # the caller may modify what it got
            X.data[:] = 7
            y[:] = 3
            first = False
            ctx.key(name, sub, digest(eX, ey))
        if kw:
            ctx.check(not os.path.exists(box.dir) or not os.listdir(box.dir), "files are written outside of the folder given", got=os.listdir(box.dir) if os.path.exists(box.dir) else None, **info)
        left = [f for f in os.listdir(os.path.join(kw.get("data_dir", box.dir), name)) if f.endswith(".part")]
        ctx.check(not left, "temporary files are left behind", got=left)
        if name in fakenet.SUBSETS and rng.rand() < 0.3:
            try:
                loader(box, name)(["Train", "validation", "", None][rng.randint(4)], **kw)
            except ValueError:
                ctx.count("unknown subset")
            else:
                ctx.fail("an unknown subset is accepted", name=name)
        box.forget_downloads()
    ctx.sample(name=name, shape=Xtr.shape)


def wl_local(ctx, rng):
    """Files that are already there are used: all of them, or only those of the training set."""
    name = (fakenet.SUBSETS + fakenet.TRAIN)[rng.randint(5)]
    _, (Xtr, ytr), (Xte, yte) = fakenet.archive(rng, name)
    server = fakenet.Server({})
    with fakenet.Sandbox(server) as box:
        d = os.path.join(box.dir, name)
        os.mkdir(d)
        both = name in fakenet.SUBSETS and rng.rand() < 0.5
        for part, X, y in [("train", Xtr, ytr)] + ([("test", Xte, yte)] if both else []):
            for nm, a in (("data", X.data), ("indices", X.indices), ("indptr", X.indptr)):
                np.save(os.path.join(d, "X_%s.%s.npy" % (part, nm)), a)
            np.save(os.path.join(d, "y_%s.npy" % part), y)
        before = {f: (os.path.getmtime(os.path.join(d, f)), os.path.getsize(os.path.join(d, f))) for f in os.listdir(d)}
        for sub in (["train", "test", "full"] if both else ["train"]):
            X, y = loader(box, name)(*((sub,) if name in fakenet.SUBSETS else ()))
            eX = {"train": Xtr.toarray(), "test": Xte.toarray(), "full": np.vstack((Xtr.toarray(), Xte.toarray()))}[sub]
            ey = {"train": ytr, "test": yte, "full": np.concatenate((ytr, yte))}[sub]
            ctx.check(np.array_equal(X.toarray(), eX) and np.array_equal(y, ey), "local files are not what is returned", subset=sub, name=name)
            ctx.key("local", name, sub, digest(eX, ey))
        ctx.check(not server.requests, "a dataset that is there is downloaded", name=name)
        after = {f: (os.path.getmtime(os.path.join(d, f)), os.path.getsize(os.path.join(d, f))) for f in os.listdir(d)}
        ctx.check(before == after, "loading modifies the files of the dataset", name=name)
        ctx.count("local train files only" if not both else "local files")


def wl_svm(ctx, rng):
    name = fakenet.SVM[rng.randint(4)]
    data, eX, ey = fakenet.svm_file(rng, name)
    bad = fakenet.svm_file(rng, name)[0]
    server = fakenet.Server({fakenet.URL[name]: data}, chunk=[1 << 20, 64, 1000][rng.randint(3)])
    server.good[data] = fakenet.MD5[name]
    md5 = rng.rand() < 0.6
    corrupt = 0
    if md5 and rng.rand() < 0.5:
        corrupt = 1 + rng.randint(3)
        server.script = [("data", bad if rng.rand() < 0.5 else data[:-3] + b"xyz")] * corrupt
        if bad == data:
            raise Skip
        ctx.count("corrupt download")
    with fakenet.Sandbox(server, existing=rng.rand() < 0.5) as box:
        for k in range(1 + rng.randint(3)):
            info = dict(name=name, load=k, md5_check=md5, corrupt_downloads=corrupt)
            args = () if md5 and rng.rand() < 0.5 else (md5,)
            X, y = loader(box, name)(*args)
            ctx.check(fakenet.same_matrix(X, eX), "the data is not that of the published file", got=X.toarray() if hasattr(X, "toarray") else repr(X)[:200], expected=eX.toarray(), **info)
            ctx.check(isinstance(y, np.ndarray) and np.array_equal(y, ey), "the labels are not 0 and 1 as in the published file", got=y, expected=ey, **info)
            ctx.count("load_" + name)
            ctx.check(server.requests == [fakenet.URL[name]] * (1 + corrupt), "the dataset is not downloaded from its address, once per failed check", got=server.requests, **info)
            ctx.count("urls requested")
            if k:
                ctx.count("later loads")
            if not k and rng.rand() < 0.7:
                server.files.clear()
                ctx.count("without network")
            X.data[:] = 5
            y[:] = 9
            ctx.key(name, k, digest(eX.toarray(), ey))
        box.forget_downloads()


_grid = []


def wl_img(ctx, rng):
    if not _grid:
        d = os.path.join(os.path.dirname(copt.datasets.__file__), "data", "img1.csv")
        _grid.append(np.loadtxt(d, delimiter=",").reshape(100, 100))
    G = _grid[0]
    r, c = [1 + rng.randint(130), 10, 20, 25, 50, 100][rng.randint(6)], [1 + rng.randint(130), 10, 20, 25, 50, 100][rng.randint(6)]
    if rng.rand() < 0.2:
        img = copt.datasets.load_img1()
        r = c = 20
    elif rng.rand() < 0.5:
        img = copt.datasets.load_img1(n_rows=r, n_cols=c)
    else:
        img = copt.datasets.load_img1(r, c)
    info = dict(n_rows=r, n_cols=c)
    ctx.check(isinstance(img, np.ndarray) and img.shape == (r, c) and img.dtype.kind == "f", "the image does not have n_rows rows and n_cols columns", got=repr(img)[:200], **info)
    span = G.max() - G.min()
    ctx.check(np.all(np.isfinite(img)) and img.min() >= G.min() - 0.3 * span and img.max() <= G.max() + 0.3 * span, "values of the image out of range", got=(img.min(), img.max()), **info)
    # area averages of the original
    W = lambda n: np.array([[max(0.0, min((j + 1) / 100, (i + 1) / n) - max(j / 100, i / n)) * n for j in range(100)] for i in range(n)])
    ref = W(r).dot(G).dot(W(c).T)
    e = np.sqrt(np.mean((img - ref) ** 2)) / span
    ctx.check(e <= 0.12, "the image is not the sample image at the size asked for", rms=e, **info)
    if r == c == 100:
        ctx.check(np.abs(img - G).max() <= 1e-6 * span, "the image at its own size is not the sample image", **info)
    ctx.count("images")
    img2 = copt.datasets.load_img1(r, c)
    ctx.check(np.array_equal(img, img2) and img2.flags.writeable and not np.shares_memory(img, img2), "the image is different the second time")
    ctx.key("img", r, c)


WORKLOADS = [("archives", wl_archive, 800, 10000), ("local files", wl_local, 300, 3000), ("svmlight", wl_svm, 800, 10000), ("images", wl_img, 150, 1500)]
