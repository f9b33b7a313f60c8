"""C24: the loaders recover from interruptions."""
import gc
import io
import os
import pickle
import sys
import tarfile

import numpy as np
import builtins
import bz2  # noqa: F401 (lazily imported by the loaders)
import sklearn.datasets  # noqa: F401
import copt.datasets
from vlib import fakenet
from vlib.core import digest, Skip

ID = "C24"
RULE = ("loading of random published files interrupted at a chosen point of its execution (a line of the loader or of the library code that writes for it, a half of a write to a file, a read of the network), by an exception or by the death of the "
        "process with or without its buffered output, up to three times, then called again; non-trivial: the interruption happened; distinct by (loader, point, kind of interruption)")
ASSUMPTIONS = ["one process at a time uses the data folder", "files renamed or closed before the interruption are on the disk (death of the process, not of the machine)"]
REQUIRED = ["interruptions by exception", "deaths of the process", "deaths with flushed buffers", "interruptions inside of the network reads", "interruptions while files are written", "truncated downloads", "refused connections",
            "recovered loads"] + ["interrupted load_" + n for n in ("madelon", "rcv1", "gisette", "covtype", "news20") + fakenet.SVM]

TRACED = {"datasets.py": "loader", "request.py": "download", "response.py": "download", "_npyio_impl.py": "numpy", "npyio.py": "numpy", "_format_impl.py": "numpy", "format.py": "numpy", "shutil.py": "copy", "tarfile.py": "tar",
          "_svmlight_format_io.py": "svmlight", "bz2.py": "bz2"}


_open = builtins.open


class Stop(BaseException):
    """Interruption (as KeyboardInterrupt, but recognisable)."""


class Halves:
    """File open for writing whose writes reach the disk in two parts, with a point in between."""

    def __init__(self, f, name, points):
        self.__dict__.update(_f=f, _name=os.path.basename(str(name)), _points=points)

    def write(self, b):
        b = bytes(b)
        h = len(b) // 2
        if h:
            self._f.write(b[:h])
            self._f.flush()
            self._points.hit("write", "half of a write to " + self._name)
            return h + self._f.write(b[h:])
        return self._f.write(b)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)


class Points:
    """Counts the points of an execution per (kind, place) and acts at one of them."""

    def __init__(self, target=None, index=None, act=None):
        self.n = {}
        self.target, self.index, self.act = target, index, act
        self.where = None

    def hit(self, kind, where):
        k = self.n.get((kind, where), 0)
        self.n[kind, where] = k + 1
        if (kind, where) == self.target and k == self.index:
            self.target = None
            self.where = where
            self.act(where)

    def _moving(self, fn):
        def moved(src, dst, *a, **k):
            name = os.path.basename(str(dst))
            self.hit("rename", "before the renaming to " + name)
            r = fn(src, dst, *a, **k)
            self.hit("rename", "after the renaming to " + name)
            return r
        return moved

    def _open(self, file, mode="r", *a, **k):
        f = _open(file, mode, *a, **k)
        return Halves(f, file, self) if "b" in mode and ("w" in mode or "a" in mode) else f

    def _local(self, frame, event, arg):
        if event == "line":
            f = os.path.basename(frame.f_code.co_filename)
            self.hit(TRACED[f], "%s:%d" % (f, frame.f_lineno))
        return self._local

    def _global(self, frame, event, arg):
        f = os.path.basename(frame.f_code.co_filename)
        return self._local if f in TRACED and not f.startswith("c24") else None

    def run(self, server, fn):
        server.event = lambda what: self.hit("network", "network")
        old = sys.gettrace()
        builtins.open = tarfile.bltn_open = self._open
        moves = {f: getattr(os, f) for f in ("replace", "rename")}
        for f in moves:
            setattr(os, f, self._moving(moves[f]))
        sys.settrace(self._global)
        try:
            return fn()
        finally:
            sys.settrace(old)
            for f in moves:
                setattr(os, f, moves[f])
            builtins.open = tarfile.bltn_open = _open
            server.event = lambda what: None


def flush_all():
    for o in gc.get_objects():
        if isinstance(o, (io.BufferedWriter, io.BufferedRandom)):
            try:
                o.flush()
            except Exception:
                pass


def in_child(fn):
    """Runs fn in a child process; returns what it sent, or None if it died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            sys.settrace(None)
            out = fn(w)
            if out is not None:
                os.write(w, pickle.dumps(out))
            code = 0
        except BaseException as e:  # noqa
            try:
                os.write(w, pickle.dumps(("exception", repr(e)[:300])))
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return pickle.loads(buf) if buf else None


def wl_crash(ctx, rng):
    name = (fakenet.SUBSETS + fakenet.TRAIN + fakenet.SVM)[rng.randint(9)]
    svm = name in fakenet.SVM
    if svm:
        data, eX, ey = fakenet.svm_file(rng, name)
        subs = [None]
    else:
        data, (Xtr, ytr), (Xte, yte) = fakenet.archive(rng, name)
        subs = ["train", "test", "full"] if name in fakenet.SUBSETS else [None]
    server = fakenet.Server({fakenet.URL[name]: data}, chunk=[1 << 20, max(1, len(data) // 3)][rng.randint(2)])
    if svm:
        server.good[data] = fakenet.MD5[name]
    md5 = bool(rng.randint(2))

    def expected(sub):
        if svm:
            return eX.toarray(), ey
        if sub in (None, "train"):
            return Xtr.toarray(), ytr
        if sub == "test":
            return Xte.toarray(), yte
        return np.vstack((Xtr.toarray(), Xte.toarray())), np.concatenate((ytr, yte))

    def load(box, sub):
        return getattr(box.mod, "load_" + name)(*((md5,) if svm else () if sub is None else (sub,)))

    def right(res, sub):
        X, y = expected(sub)
        return res[0].shape == X.shape and np.array_equal(res[0].toarray(), X) and np.array_equal(res[1], y)

    history = []
    info = dict(name=name, md5_check=md5, history=history)

    with fakenet.Sandbox(server, existing=bool(rng.randint(2))) as box:
        out = os.dup(1)
        # a dry run elsewhere counts the points of a load from scratch
        sub0 = subs[rng.randint(len(subs))]

        def dry(w):
            p = Points()
            with fakenet.Sandbox(server, existing=os.path.exists(box.dir)) as other:
                p.run(server, lambda: load(other, sub0))
            return p.n
        n = in_child(dry)
        os.close(out)
        if not isinstance(n, dict):
            ctx.fail("loading the dataset fails", got=str(n), **info)
        for attempt in range(1 + rng.randint(3)):
            sub = sub0 if attempt == 0 else subs[rng.randint(len(subs))]
            what = rng.randint(8)
            # a kind of points, one of its places, one of the times it is reached
            kinds = sorted({q[0] for q in n})
            kind = ["loader", "loader", "rename", "write", "numpy"][rng.randint(5)] if rng.rand() < 0.85 else kinds[rng.randint(len(kinds))]
            places = sorted(q for q in n if q[0] == kind) or sorted(n)
            target = places[rng.randint(len(places))]
            kind = target[0]
            k = [0, n[target] - 1, n[target] - 1, rng.randint(n[target])][rng.randint(4)]
            if what == 0:
                server.script = [("error",) if rng.rand() < 0.3 else ("short", rng.randint(len(data)))]
                fault = server.script[0][0]
                try:
                    r = load(box, sub)
                except Exception:
                    history.append("network " + fault)
                    ctx.count("truncated downloads" if fault == "short" else "refused connections")
                else:
                    ctx.check(right(r, sub), "a truncated download is returned as the dataset", **info)
                server.script = []
            elif what <= 3:
                def act(where):
                    raise Stop(where)
                p = Points(target, k, act)
                try:
                    r = p.run(server, lambda: load(box, sub))
                except Stop as e:
                    ctx.count("interruptions by exception")
                    history.append("exception at %s" % e)
                except Exception as e:
                    # the library code turned it into another exception
                    if p.where is None:
                        ctx.fail("a load after an interruption fails", got=repr(e)[:300], subset=sub, **info)
                    history.append("exception at %s" % p.where)
                else:
                    ctx.check(right(r, sub), "a load that was interrupted returns something else than the dataset", subset=sub, **info)
                if p.where:
                    mark(ctx, kind, name, p.where, "exception")
            else:
                flush = what >= 6

                def child(w):
                    def act(where):
                        if flush:
                            flush_all()
                        os.write(w, pickle.dumps(("died", where)))
                        os._exit(0)
                    p = Points(target, k, act)
                    r = p.run(server, lambda: load(box, sub))
                    return ("returned", right(r, sub))
                r = in_child(child)
                if r is None or r[0] == "exception":
                    ctx.fail("a load after an interruption fails", got=str(r), subset=sub, **info)
                if r[0] == "died":
                    history.append("death at %s%s" % (r[1], " with flushed buffers" if flush else ""))
                    ctx.count("deaths with flushed buffers" if flush else "deaths of the process")
                    mark(ctx, kind, name, r[1], "death flushed" if flush else "death")
                else:
                    ctx.check(r[1], "a load after an interruption does not return the dataset", subset=sub, **info)
        for sub in [subs[rng.randint(len(subs))] for _ in range(2)]:
            try:
                r = load(box, sub)
            except Exception as e:
                ctx.fail("a load after an interruption fails", got=repr(e)[:300], subset=sub, **info)
            ctx.check(right(r, sub), "a load after an interruption does not return the dataset", subset=sub, got=(r[0].shape, r[1][:10]), expected=expected(sub)[0].shape, **info)
            ctx.count("recovered loads")
        reqs = len(server.requests)
        server.files.clear()
        r = load(box, subs[0])
        ctx.check(right(r, subs[0]) and len(server.requests) == reqs, "a dataset that was recovered is downloaded again", **info)
        box.forget_downloads()
    ctx.sample(**info)


def mark(ctx, kind, name, where, how):
    ctx.key(name, where, how)
    ctx.count("interrupted load_" + name)
    if kind == "network":
        ctx.count("interruptions inside of the network reads")
    if kind in ("numpy", "copy", "write", "rename"):
        ctx.count("interruptions while files are written")


WORKLOADS = [("crash", wl_crash, 1300, 20000)]
