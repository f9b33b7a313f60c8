"""A stand-in for the servers of the datasets, and a scratch data folder.

`Server.install()` replaces urllib.request.urlopen (urlretrieve goes through it), so nothing
ever reaches the network; what is written goes to a scratch folder that `close()` removes."""
import bz2
import email.message
import hashlib
import importlib
import io
import os
import shutil
import tarfile
import tempfile
import urllib.error
import urllib.request

import numpy as np
from scipy import sparse

# facts about the published files
MD5 = {"url": "83673b8f4224c81968af2fb6022ee487", "kdd10": "bc5b630fef6989c2f201039fef497e14", "kdd12": "c6fc57735c3cf687dd182d60a7b51cda", "criteo": "d852b491d1b3afa26c1e7b49594ffc3e"}
URL = {"url": "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2", "kdd10": "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2",
       "kdd12": "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2", "criteo": "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"}
for _n in ("madelon", "rcv1", "covtype", "news20", "gisette"):
    URL[_n] = "https://storage.googleapis.com/copt-doc/datasets/%s.tar.gz" % _n
SUBSETS = ("madelon", "rcv1", "gisette")
TRAIN = ("covtype", "news20")
SVM = ("url", "kdd10", "kdd12", "criteo")

_real_urlopen = urllib.request.urlopen
_real_md5 = hashlib.md5


class Response(io.RawIOBase):
    def __init__(self, server, data, length):
        self.server, self.data, self.pos = server, data, 0
        self.headers = email.message.Message()
        if length is not None:
            self.headers["Content-Length"] = str(length)
        self.status = self.code = 200

    def readable(self):
        return True

    def info(self):
        return self.headers

    def getcode(self):
        return 200

    def read(self, n=-1):
        self.server.event("network read")
        n = len(self.data) - self.pos if n is None or n < 0 else min(n, self.server.chunk)
        out = self.data[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readinto(self, b):
        out = self.read(len(b))
        b[:len(out)] = out
        return len(out)


class Server:
    """Serves `files` (url -> bytes); what each request gets can be scripted."""

    def __init__(self, files, chunk=1 << 20):
        self.files, self.chunk = dict(files), chunk
        self.requests = []
        self.script = []  # one entry per request: None, ("data", bytes), ("short", k) or ("error",)
        self.event = lambda what: None
        self.good = {}  # content -> md5 announced for it

    def urlopen(self, url, *a, **k):
        if not isinstance(url, str):
            url = url.full_url
        self.requests.append(url)
        self.event("request")
        if url not in self.files:
            raise urllib.error.URLError("unknown url %s" % url)
        data = self.files[url]
        what = self.script.pop(0) if self.script else None
        if what is not None and what[0] == "error":
            raise urllib.error.URLError("connection refused")
        if what is not None and what[0] == "data":
            data = what[1]
        n = len(data)
        if what is not None and what[0] == "short":
            data = data[:what[1]]
        return Response(self, data, n)

    def md5(self, data=b"", **kw):
        server = self

        class H:
            def __init__(self):
                self.buf = b""

            def update(self, d):
                self.buf += bytes(d)

            def hexdigest(self):
                return server.good.get(self.buf) or _real_md5(self.buf).hexdigest()

            def digest(self):
                return bytes.fromhex(self.hexdigest())

        h = H()
        h.update(data)
        return h

    def install(self):
        urllib.request.urlopen = self.urlopen
        hashlib.md5 = self.md5

    def remove(self):
        urllib.request.urlopen = _real_urlopen
        hashlib.md5 = _real_md5


class Sandbox:
    """Scratch data folder, its own copy of the module of the loaders, and the server."""

    def __init__(self, server, existing=True):
        self.server = server
        self.root = tempfile.mkdtemp(prefix="verif-copt-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.dir = os.path.join(self.root, "data")
        if existing:
            os.mkdir(self.dir)
        os.mkdir(os.path.join(self.root, "tmp"))
        self.old = (os.environ.get("COPT_DATA_DIR"), tempfile.tempdir, os.getcwd())

    def __enter__(self):
        os.environ["COPT_DATA_DIR"] = self.dir
        tempfile.tempdir = os.path.join(self.root, "tmp")
        os.chdir(os.path.join(self.root, "tmp"))
        self.server.install()
        self.mod = importlib.reload(importlib.import_module("copt.datasets"))
        return self

    def __exit__(self, *a):
        self.server.remove()
        env, tmp, cwd = self.old
        if env is None:
            os.environ.pop("COPT_DATA_DIR", None)
        else:
            os.environ["COPT_DATA_DIR"] = env
        tempfile.tempdir = tmp
        os.chdir(cwd)
        shutil.rmtree(self.root)

    def forget_downloads(self):
        """urlretrieve keeps the names of its temporary files"""
        urllib.request.urlcleanup()


# ---------------------------------------------------------------------------
# contents
def matrix(rng, n, p, narrow=False):
    D = np.round(rng.randn(n, p), 3) * (rng.rand(n, p) < 0.5)
    if n > 1:
        D[rng.rand(n) < 0.2] = 0
    D[rng.randint(n), p - 1] = 1.5  # the width of the matrix is known from its largest index
    return sparse.csr_matrix(D)


def npy(a):
    f = io.BytesIO()
    np.save(f, a)
    return f.getvalue()


def tar_of(members, mode="w:gz"):
    f = io.BytesIO()
    with tarfile.open(fileobj=f, mode=mode) as t:
        for name, data in members:
            ti = tarfile.TarInfo(name)
            if data is None:
                ti.type = tarfile.DIRTYPE
                ti.mode = 0o755
                t.addfile(ti)
            else:
                ti.size = len(data)
                t.addfile(ti, io.BytesIO(data))
    return f.getvalue()


def archive(rng, name):
    """(bytes of the archive, (X_train, y_train), (X_test, y_test))"""
    p = 1 + rng.randint(8)
    dt = [np.float64, np.float32, np.int64][rng.randint(3)]
    it = [np.int32, np.int64][rng.randint(2)]
    sets, members = [], []
    for part in ("train", "test"):
        n = 1 + rng.randint(12) if rng.rand() < 0.85 else 900 + rng.randint(600)
        X = matrix(rng, n, p)
        X = sparse.csr_matrix((np.round(X.data * 10).astype(dt) if dt is np.int64 else X.data.astype(dt), X.indices.astype(it), X.indptr.astype(it)), shape=X.shape)
        y = [rng.randint(2, size=n), rng.randint(2, size=n).astype(float), rng.randint(2, size=n).astype(np.int8)][rng.randint(3)]
        sets.append((X, y))
        members += [("%s/X_%s.data.npy" % (name, part), npy(X.data)), ("%s/X_%s.indices.npy" % (name, part), npy(X.indices)), ("%s/X_%s.indptr.npy" % (name, part), npy(X.indptr)), ("%s/y_%s.npy" % (name, part), npy(y))]
    members = [members[k] for k in rng.permutation(len(members))]
    if rng.rand() < 0.7:
        members.insert(0, (name, None))
    if rng.rand() < 0.3:
        members.insert(rng.randint(1, len(members) + 1), ("%s/README" % name, b"notes " * rng.randint(2000)))
    return tar_of(members), sets[0], sets[1]


def svmlight(rng, labels):
    """(text, X, y)"""
    n, p = 1 + rng.randint(12), 1 + rng.randint(8)
    X = matrix(rng, n, p)
    y = np.array(labels)[rng.randint(len(labels), size=n)]
    lines = []
    for i in range(n):
        s = slice(X.indptr[i], X.indptr[i + 1])
        lines.append("%d %s" % (y[i], " ".join("%d:%r" % (j + 1, float(v)) for j, v in zip(X.indices[s], X.data[s]))))
    return ("\n".join(lines) + "\n").encode(), X, y


def svm_file(rng, name):
    """(bytes of the published file, X, y)"""
    labels = {"url": [-1, 1], "kdd12": [[-1, 1], [0, 1]][rng.randint(2)], "kdd10": [0, 1], "criteo": [0, 1]}[name]
    text, X, y = svmlight(rng, labels)
    y01 = (y > 0).astype(int)
    if name == "criteo":
        t2 = svmlight(rng, labels)[0]
        mem = [("criteo.kaggle2014.train.svm", text), ("criteo.kaggle2014.test.svm", t2)]
        return tar_of([mem[k] for k in rng.permutation(2)]), X, y01
    return bz2.compress(text), X, y01


def same_matrix(A, B):
    return sparse.issparse(A) and A.format == "csr" and A.shape == B.shape and np.array_equal(A.toarray(), B.toarray())
