"""Stand-in for the part of PyTorch that copt.utils_pytorch uses (PyTorch is not installed).

Tensors on named devices over numpy arrays, with reverse-mode differentiation and the rules that matter for an adapter:
gradients accumulate in leaves, requires_grad can be set on floating point leaves only, arrays can be taken from tensors of
the cpu that do not require gradients only, tensor() copies and numpy(), view() and from_numpy() share memory."""
import types

import numpy as np

from vlib.core import Skip

float32, float64, float = np.dtype("float32"), np.dtype("float64"), np.dtype("float32")
double = float64
log = []  # devices and types of the tensors the user function receives are read from here by the check


class Device:
    def __init__(self, name="cpu"):
        self.type = name.type if isinstance(name, Device) else str(name).split(":")[0]

    def __eq__(self, o):
        return self.type == (o.type if isinstance(o, Device) else str(o).split(":")[0])

    def __hash__(self):
        return hash(self.type)

    def __repr__(self):
        return "device(%s)" % self.type


class Tensor:
    def __init__(self, a, device="cpu", parents=(), back=None, requires_grad=False):
        self._a, self.device, self.grad = a, Device(device), None
        self._parents = [p for p in parents if p._rg]
        self._back = back if self._parents else None
        self._rg = requires_grad or bool(self._parents)

    # properties
    is_leaf = property(lambda s: s._back is None)
    shape = property(lambda s: s._a.shape)
    ndim = property(lambda s: s._a.ndim)
    dtype = property(lambda s: s._a.dtype)
    data = property(lambda s: Tensor(s._a, s.device))
    T = property(lambda s: s._op(s._a.T, lambda g: g.T))

    @property
    def requires_grad(self):
        return self._rg

    @requires_grad.setter
    def requires_grad(self, v):
        if not self.is_leaf:
            raise RuntimeError("you can only change requires_grad flags of leaf variables.")
        if v and self._a.dtype.kind != "f":
            raise RuntimeError("only Tensors of floating point dtype can require gradients")
        self._rg = bool(v)

    def requires_grad_(self, v=True):
        self.requires_grad = v
        return self

    def _op(self, a, back):
        return Tensor(a, self.device, [self], lambda g: [back(g)])

    # shapes and devices
    def view(self, *shape):
        shape = tuple(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        old = self._a.shape
        return self._op(self._a.reshape(shape), lambda g: g.reshape(old))

    reshape = view

    def view_as(self, o):
        return self.view(*o.shape)

    def flatten(self):
        return self.view(-1)

    ravel = flatten

    def to(self, *args, **kw):
        device, dtype = kw.get("device", self.device), kw.get("dtype", self.dtype)
        for a in args:
            if isinstance(a, (str, Device)):
                device = a
            else:
                dtype = np.dtype(a)
        device = Device(device)
        if device == self.device and dtype == self.dtype:
            return self
        old = self.dtype
        return Tensor(self._a.astype(dtype), device, [self], lambda g: [g.astype(old)])

    def cpu(self):
        return self.to("cpu")

    def cuda(self):
        return self.to("cuda")

    def type(self, dtype):
        return self.to(dtype)

    def double(self):
        return self.to(float64)

    def float(self):
        return self.to(float32)

    def clone(self):
        return self._op(self._a.copy(), lambda g: g)

    def contiguous(self):
        return self

    def detach(self):
        return Tensor(self._a, self.device)

    def numpy(self):
        if self._rg:
            raise RuntimeError("Can't call numpy() on Tensor that requires grad. Use tensor.detach().numpy() instead.")
        if self.device != "cpu":
            raise TypeError("can't convert %s device type tensor to numpy." % self.device.type)
        return self._a

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.numpy(), dtype)

    def item(self):
        return self._a.item()

    def tolist(self):
        return self._a.tolist()

    def numel(self):
        return self._a.size

    def size(self, k=None):
        return self.shape if k is None else self.shape[k]

    def __float__(self):
        return self._a.item() + 0.0

    # arithmetic
    def _bin(self, o, f, da, db):
        if isinstance(o, Tensor):
            if o.device != self.device and o.ndim and self.ndim:
                raise RuntimeError("Expected all tensors to be on the same device")
        else:
            o = Tensor(np.asarray(o, dtype=self.dtype), self.device)
        a, b = self._a, o._a

        def fit(g, like):
            while g.ndim > like.ndim:
                g = g.sum(axis=0)
            for k in range(like.ndim):
                if like.shape[k] == 1 and g.shape[k] != 1:
                    g = g.sum(axis=k, keepdims=True)
            return g.astype(like.dtype)
        par, backs = [], []
        for t, d, like in ((self, da, a), (o, db, b)):
            if t._rg:
                par.append(t)
                backs.append(lambda g, d=d, like=like: fit(d(g, a, b), like))
        return Tensor(np.asarray(f(a, b)), self.device, par, lambda g: [h(g) for h in backs])

    def __add__(self, o):
        return self._bin(o, np.add, lambda g, a, b: g, lambda g, a, b: g)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, np.subtract, lambda g, a, b: g, lambda g, a, b: -g)

    def __neg__(self):
        return self._op(-self._a, lambda g: -g)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        return self._bin(o, np.multiply, lambda g, a, b: g * b, lambda g, a, b: g * a)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, np.divide, lambda g, a, b: g / b, lambda g, a, b: -g * a / b ** 2)

    def __pow__(self, k):
        a = self._a
        return self._op(a ** k, lambda g: g * k * a ** (k - 1))

    def __matmul__(self, o):
        def da(g, a, b):
            return np.multiply.outer(g, b) if b.ndim == 1 else g @ b.T

        def db(g, a, b):
            return a.T @ g if a.ndim == 2 else (np.multiply.outer(a, g) if b.ndim == 2 else a * g)
        return self._bin(o, np.matmul, da, db)

    def __getitem__(self, k):
        a = self._a

        def back(g):
            out = np.zeros_like(a)
            np.add.at(out, k, g)
            return out
        return self._op(np.asarray(a[k]), back)

    def sum(self):
        a = self._a
        return self._op(np.asarray(a.sum()), lambda g: np.full_like(a, g))

    def mean(self):
        return self.sum() / self._a.size

    def exp(self):
        e = np.exp(self._a)
        return self._op(e, lambda g: g * e)

    def sin(self):
        a = self._a
        return self._op(np.sin(a), lambda g: g * np.cos(a))

    def log1p(self):
        a = self._a
        return self._op(np.log1p(a), lambda g: g / (1 + a))

    # differentiation
    def backward(self, gradient=None):
        if not self._rg:
            raise RuntimeError("element 0 of tensors does not require grad and does not have a grad_fn")
        if self._a.size != 1:
            raise RuntimeError("grad can be implicitly created only for scalar outputs")
        for t, g in self._grads(gradient):
            if t.is_leaf:
                t.grad = Tensor(g.copy(), t.device) if t.grad is None else Tensor(t.grad._a + g, t.device)

    def _grads(self, gradient=None):
        order, seen = [], set()

        def walk(t):
            if id(t) not in seen:
                seen.add(id(t))
                for p in t._parents:
                    walk(p)
                order.append(t)
        walk(self)
        acc = {id(self): np.ones_like(self._a) if gradient is None else gradient._a}
        for t in reversed(order):
            g = acc.pop(id(t))
            yield t, g
            if t._back:
                for p, gp in zip(t._parents, t._back(g)):
                    acc[id(p)] = acc[id(p)] + gp if id(p) in acc else gp

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Skip("stand-in without Tensor.%s" % name)


def tensor(x, dtype=None, device="cpu", requires_grad=False):
    a = np.array(x._a if isinstance(x, Tensor) else x, dtype=dtype, order="C")
    if dtype is None and not isinstance(x, (np.ndarray, np.generic, Tensor)) and a.dtype == float64:
        a = a.astype(float32)
    t = Tensor(a, device)
    t.requires_grad = requires_grad
    return t


def from_numpy(x):
    return Tensor(x)


def as_tensor(x, dtype=None, device="cpu"):
    return Tensor(np.asarray(x, dtype=dtype), device)


def zeros(*shape, dtype=None, device="cpu"):
    return Tensor(np.zeros(shape[0] if len(shape) == 1 else shape, dtype=dtype or float32), device)


def grad(outputs, inputs, **kw):
    one = isinstance(inputs, Tensor)
    ins = [inputs] if one else list(inputs)
    g = {id(t): Tensor(v.copy(), t.device) for t, v in outputs._grads()}
    return tuple(g[id(t)] for t in ins)


class no_grad:
    """Arrays are not tracked after the fact: only used around reads."""

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def __call__(self, f):
        return f


class enable_grad(no_grad):
    pass


def module():
    m = types.ModuleType("torch")
    for n in ("Tensor", "tensor", "from_numpy", "as_tensor", "zeros", "no_grad", "enable_grad", "float32", "float64", "double", "float"):
        setattr(m, n, globals()[n])
    m.device = Device
    m.autograd = types.SimpleNamespace(grad=grad)

    def missing(name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Skip("stand-in without torch.%s" % name)
    m.__getattr__ = missing
    return m
