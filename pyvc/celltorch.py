"""torch for tensors of known shape with symbolic entries: numpy object arrays hold the entries, numpy's own
indexing and broadcasting move them, comparisons stay symbolic, and a mask used as an index (or a condition)
is settled entry by entry, one path for each outcome. The functions follow torch's documentation; argsort is stable."""
import collections
import math

import numpy as np

from .core import Unsupported, is_sym, lift, wrap
from . import core
import z3

MinMax = collections.namedtuple("MinMax", ["values", "indices"])


def _lift(x):
    if isinstance(x, float) and math.isinf(x):
        return wrap(core.POS_INF if x > 0 else -core.POS_INF)
    return x


def _arr(x):
    if isinstance(x, CT):
        return x.n
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = _lift(x)
    return a


def _and(a, b):
    if not is_sym(a):
        return b if a else False
    if not is_sym(b):
        return a if b else False
    return wrap(z3.And(lift(a), lift(b)))


def _or(a, b):
    if not is_sym(a):
        return True if a else b
    if not is_sym(b):
        return True if b else a
    return wrap(z3.Or(lift(a), lift(b)))


def _not(a):
    return wrap(z3.Not(lift(a))) if is_sym(a) else not a


def _max(a, b):
    if not is_sym(a) and not is_sym(b):
        return max(a, b)
    a, b = core.to_real(lift(a)), core.to_real(lift(b))
    return wrap(z3.If(a >= b, a, b))


def _min(a, b):
    if not is_sym(a) and not is_sym(b):
        return min(a, b)
    a, b = core.to_real(lift(a)), core.to_real(lift(b))
    return wrap(z3.If(a <= b, a, b))


class Product(core.SymNum):
    """a product that remembers its factors: whether it is positive is decided from their signs"""

    __slots__ = ("factors",)

    def __init__(self, e, factors):
        core.SymNum.__init__(self, e)
        self.factors = factors

    def _zero(self):
        return z3.Or(*[f == 0 for f in self.factors])

    def __truediv__(self, o):
        if isinstance(o, CT):
            return NotImplemented
        if isinstance(o, Product):
            if core.ctx().decide(o._zero()):
                raise Unsupported("division of a product by zero")
            return Product(self.e / o.e, self.factors + o.factors)
        return core.SymNum(self.e) / o

    def __gt__(self, o):
        if not is_sym(o) and o == 0:
            odd = z3.BoolVal(False)
            for f in self.factors:
                odd = z3.Xor(odd, f < 0)
            return wrap(z3.And(z3.Not(self._zero()), z3.Not(odd)))
        return core.SymNum(self.e) > o

    __hash__ = core.SymNum.__hash__


def _times(a, b):
    if not is_sym(a) and not is_sym(b):
        return a * b
    fa, fb = [q.factors if isinstance(q, Product) else [core.to_real(lift(q))] for q in (a, b)]
    return Product(core.to_real(lift(a)) * core.to_real(lift(b)), fa + fb)


def _obj(a):
    return np.asarray(a, dtype=object)


def _fold(f, a, dim, keepdim=False):
    if dim is None:
        a, dim = a.reshape(-1), 0
    if a.shape[dim] == 0:
        raise Unsupported("reduction of an empty axis")
    sl = [_arr(a.take(k, axis=dim)) for k in range(a.shape[dim])]
    r = sl[0]
    for s in sl[1:]:
        r = _arr(np.frompyfunc(f, 2, 1)(r, s))
    return np.expand_dims(r, dim) if keepdim else r


class CT:
    device = None

    def __init__(self, a):
        self.n = _arr(a) if not isinstance(a, (list, tuple)) else _obj(a)

    # -- shape
    shape = property(lambda s: tuple(s.n.shape))
    ndim = property(lambda s: s.n.ndim)

    @property
    def dtype(self):
        return "cell"

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.ndim

    def __len__(self):
        return self.n.shape[0]

    def __iter__(self):
        return iter([self[i] for i in range(len(self))])

    def detach(self):
        return self

    def clone(self):
        return CT(self.n.copy())

    def _s(self, shape):
        return tuple(int(x) for x in (shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape))

    def view(self, *shape):
        return CT(self.n.reshape(self._s(shape)))

    reshape = view

    def expand(self, *shape):
        sh = self._s(shape)
        off = len(sh) - self.ndim
        return CT(np.broadcast_to(self.n, [self.n.shape[i - off] if x == -1 else x for i, x in enumerate(sh)]))

    def repeat(self, *reps):
        return CT(np.tile(self.n, self._s(reps)))

    def unsqueeze(self, d):
        return CT(np.expand_dims(self.n, d))

    def squeeze(self, d):
        return CT(np.squeeze(self.n, d)) if self.n.shape[d] == 1 else self

    def flip(self, d):
        return CT(np.flip(self.n, d))

    def chunk(self, k, dim=0):
        return tuple(CT(x) for x in np.array_split(self.n, k, axis=dim))

    def gather(self, dim, index):
        return CT(np.take_along_axis(self.n, index.n.astype(int), axis=dim))

    # -- entries
    def item(self):
        return self.n.reshape(-1)[0] if self.n.size == 1 else self._one()

    def _one(self):
        raise ValueError("only one element tensors can be converted")

    def __bool__(self):
        return bool(self.item())

    def __index__(self):
        x = self.item()
        return int(x)

    __int__ = __index__

    def _ix(self, index):
        if isinstance(index, tuple):
            return tuple(self._ix(i) for i in index)
        if isinstance(index, slice):
            return slice(*[int(x) if isinstance(x, CT) else x for x in (index.start, index.stop, index.step)])
        if isinstance(index, CT):
            a = index.n
            flat = a.reshape(-1)
            if len(flat) and (isinstance(flat[0], (bool, np.bool_)) or is_sym(flat[0]) and z3.is_bool(lift(flat[0]))):
                return np.array([bool(x) for x in flat], dtype=bool).reshape(a.shape)
            if len(flat) == 0:
                return np.zeros(a.shape, dtype=bool if getattr(index, "_bool", False) else int)
            return np.array([int(x) for x in flat], dtype=int).reshape(a.shape) if a.ndim else int(flat[0])
        return index

    def __getitem__(self, index):
        r = self.n[self._ix(index)]
        if isinstance(r, np.ndarray):
            t = CT.__new__(CT)
            t.n = r
            return t
        return CT(_arr(r))

    def __setitem__(self, index, value):
        v = value.n if isinstance(value, CT) else _arr(value)
        if v.ndim == 0:
            v = v[()]
            old = self.n.reshape(-1)
            if len(old) and isinstance(old[0], (bool, np.bool_)) and not is_sym(v):
                v = bool(v)
        self.n[self._ix(index)] = v

    # -- arithmetic
    def _b(self, f, o):
        if not isinstance(o, (CT, int, float, bool, np.ndarray)) and not is_sym(o):
            return NotImplemented
        return CT(np.frompyfunc(f, 2, 1)(self.n, _arr(o)))

    def _u(self, f):
        return CT(np.frompyfunc(f, 1, 1)(self.n))

    def __neg__(self):
        return self._u(lambda x: -x)

    def __invert__(self):
        return self._u(_not)

    def clamp_min(self, x):
        return self._u(lambda q: _max(q, x))

    def all(self, dim=None):
        return CT(_fold(_and, self.n, dim)) if self.n.size or dim is not None and self.n.shape[dim] else CT(np.full(() if dim is None else np.delete(self.n.shape, dim), True, dtype=object))

    def any(self, dim=None):
        return CT(_fold(_or, self.n, dim)) if self.n.size or dim is not None and self.n.shape[dim] else CT(np.full(() if dim is None else np.delete(self.n.shape, dim), False, dtype=object))

    def sum(self, dim=None):
        a = self.n
        if a.size and (isinstance(a.reshape(-1)[0], (bool, np.bool_)) or is_sym(a.reshape(-1)[0]) and z3.is_bool(lift(a.reshape(-1)[0]))):
            a = _arr(np.frompyfunc(lambda x: int(bool(x)), 1, 1)(a))
        if a.size == 0:
            return CT(_obj(np.zeros(() if dim is None else np.delete(a.shape, dim), dtype=object)))
        return CT(_fold(lambda x, y: x + y, a, dim))

    def prod(self, dim=None):
        return CT(_fold(_times, self.n, dim))

    def _mm(self, f, dim, keepdim):
        if dim is None:
            return CT(_fold(f, self.n, None))
        r = CT(_fold(f, self.n, dim, keepdim))
        idx = None
        if not any(is_sym(x) for x in self.n.reshape(-1)):
            k = (np.argmax if f is _max else np.argmin)(self.n.astype(float), axis=dim)
            idx = CT(_obj(np.asarray(k)))
        return MinMax(r, idx)

    def max(self, dim=None, keepdim=False):
        return self._mm(_max, dim, keepdim)

    def min(self, dim=None, keepdim=False):
        return self._mm(_min, dim, keepdim)

    def __format__(self, s):
        return "tensor"

    __hash__ = None


for _n, _f in {"add": lambda x, y: x + y, "radd": lambda x, y: y + x, "sub": lambda x, y: x - y, "rsub": lambda x, y: y - x, "mul": lambda x, y: x * y, "rmul": lambda x, y: y * x,
               "truediv": lambda x, y: x / y, "rtruediv": lambda x, y: y / x, "lt": lambda x, y: x < y, "le": lambda x, y: x <= y, "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y,
               "eq": lambda x, y: x == y, "ne": lambda x, y: x != y, "and": _and, "or": _or}.items():
    setattr(CT, f"__{_n}__", (lambda f: lambda self, o: self._b(f, o))(_f))


def _shape(shape):
    return tuple(int(x) for x in (shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape))


def _filled(shape, v, dtype=None):
    a = np.empty(shape, dtype=object)
    v = v.item() if isinstance(v, CT) else _lift(v)
    v = bool(v) if dtype == "bool" else v
    flat = a.reshape(-1)
    for i in range(flat.size):
        flat[i] = v
    t = CT(flat.reshape(shape))
    t._bool = dtype == "bool"
    return t


def _sorted(xs):
    """positions of xs in increasing order, stable, by comparisons settled one by one"""
    out = []
    for i, x in enumerate(xs):
        k = len(out)
        while k > 0 and bool(x < xs[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


class CellTorch:
    Size = staticmethod(lambda x=(): tuple(x))
    long, bool, double, float = "long", "bool", "cell", "cell"
    Tensor = CT

    def zeros(self, *shape, dtype=None, device=None):
        return _filled(_shape(shape), 0, dtype)

    empty = zeros

    def ones(self, *shape, dtype=None, device=None):
        return _filled(_shape(shape), 1, dtype)

    def full(self, shape, v, dtype=None, device=None):
        return _filled(_shape((tuple(shape),)), v, dtype)

    def zeros_like(self, t, **k):
        return _filled(t.shape, 0)

    def full_like(self, t, v, **k):
        return _filled(t.shape, v)

    def arange(self, n, dtype=None, device=None):
        return CT(_obj([int(i) for i in range(int(n))]))

    def tensor(self, x, dtype=None, device=None):
        return CT(_arr(x).copy()) if isinstance(x, CT) else _filled((), x, dtype) if not isinstance(x, (list, tuple)) else CT(_obj(x))

    def cat(self, ts, dim=0):
        return CT(np.concatenate([t.n for t in ts], axis=dim))

    def stack(self, ts, dim=0):
        return CT(np.stack([t.n for t in ts], axis=dim))

    def split(self, t, size, dim=0):
        return tuple(CT(x) for x in np.split(t.n, range(size, t.n.shape[dim], size), axis=dim))

    def argsort(self, t, dim=-1):
        a = np.moveaxis(t.n, dim, -1)
        out = np.empty(a.shape, dtype=object)
        for ix in np.ndindex(*a.shape[:-1]):
            out[ix] = _sorted(list(a[ix]))
        return CT(np.moveaxis(out, -1, dim))

    def equal(self, a, b):
        return a.shape == b.shape and all(builtins_bool(x == y) for x, y in zip(a.n.reshape(-1), b.n.reshape(-1)))

    def where(self, c, a, b):
        def f(c, x, y):
            if not is_sym(c):
                return x if c else y
            return wrap(z3.If(lift(c), core.to_real(lift(x)), core.to_real(lift(y))))

        return CT(np.frompyfunc(f, 3, 1)(_arr(c), _arr(a), _arr(b)))

    def min(self, a, b=None, dim=None):
        return a._b(_min, b) if isinstance(b, CT) else a.min(dim)

    def max(self, a, b=None, dim=None):
        return a._b(_max, b) if isinstance(b, CT) else a.max(dim)


builtins_bool = bool
