"""the part of torch used by the code under contract, over symbolic arrays (SymArray); the semantics
follow torch's documentation. Without symbolic arguments every call falls through to the real torch."""
import collections

import numpy as _np
import z3

import torch as _torch

from . import core, symnp
from .core import SymNum, Unsupported, lift, wrap
from .symnp import I, SymArray, conc, in_range, to_symarray

MinMax = collections.namedtuple("MinMax", ["values", "indices"])


def arr(x):
    if isinstance(x, SymTensor):
        return x.a
    if isinstance(x, _torch.Tensor):
        return to_symarray(x.detach().cpu().numpy())
    return x


def T(a):
    return SymTensor(to_symarray(a)) if not isinstance(a, SymTensor) else a


def _ix(index):
    if isinstance(index, tuple):
        return tuple(arr(i) for i in index)
    return arr(index)


class Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or (cls is TensorShim and isinstance(x, (_torch.Tensor, SymTensor)))


class SymTensor:
    _is_sym = True

    def __init__(self, a):
        self.a = a

    shape = property(lambda s: tuple(s.a._shape))
    ndim = property(lambda s: s.a.ndim)
    dtype = property(lambda s: s.a.kind)
    device = property(lambda s: "cpu")

    @property
    def data(self):
        return self

    @data.setter
    def data(self, value):
        """the tensor object gets new contents; views taken before keep the old ones"""
        self.a = arr(value)

    def __len__(self):
        return len(self.a)

    def size(self, d=None):
        return self.shape if d is None else self.shape[d]

    def dim(self):
        return self.ndim

    def numpy(self):
        return self.a

    def detach(self):
        return self

    cpu = clone_ = detach

    def clone(self):
        return T(self.a.copy())

    def item(self):
        return self.a.item() if self.a.ndim else wrap(self.a._at())

    def tolist(self):
        return self.a.tolist()

    def __bool__(self):
        return bool(self.item())

    def __iter__(self):
        if not conc(self.a._shape[0]):
            raise Unsupported("iteration over a tensor of unknown length")
        return iter([self[i] for i in range(self.a._shape[0])])

    # -- shape
    def unsqueeze(self, d):
        n = self.ndim
        d = d + n + 1 if d < 0 else d
        f = self.a._snapshot()
        sh = self.a._shape
        return T(SymArray._make(sh[:d] + (1,) + sh[d:], lambda *ix: f(*ix[:d], *ix[d + 1 :]), self.a.kind))

    def squeeze(self, d=None):
        sh = self.a._shape
        if d is None:
            raise Unsupported("squeeze without dim")
        d = d + self.ndim if d < 0 else d
        if not (conc(sh[d]) and sh[d] == 1):
            if not (not conc(sh[d]) and core.ctx().decide(I(sh[d]) == 1)):
                return self
        f = self.a._snapshot()
        return T(SymArray._make(sh[:d] + sh[d + 1 :], lambda *ix: f(*ix[:d], z3.IntVal(0), *ix[d:]), self.a.kind))

    def flip(self, d):
        d = d + self.ndim if d < 0 else d
        f, n = self.a._snapshot(), I(self.a._shape[d])
        return T(SymArray._make(self.a._shape, lambda *ix: f(*ix[:d], n - 1 - ix[d], *ix[d + 1 :]), self.a.kind))

    def expand(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        off = len(shape) - self.ndim
        sh = self.a._shape
        plan, out = [], list(shape[:off])
        for x, y in zip(sh, shape[off:]):
            if conc(y) and y == -1:
                y = x
            one = conc(x) and x == 1
            out.append(y if one else x)
            plan.append(one)
        f = self.a._snapshot()
        return T(SymArray._make(tuple(out), lambda *ix: f(*[z3.IntVal(0) if p else i for p, i in zip(plan, ix[off:])]), self.a.kind))

    def view(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        # only: adding or dropping axes of length one, or flattening such a tensor
        src = [(i, s) for i, s in enumerate(self.a._shape) if not (conc(s) and s == 1)]
        dst = [(i, s) for i, s in enumerate(shape) if not (conc(s) and s == 1)]
        if len(src) == len(dst):
            f, nd = self.a._snapshot(), self.ndim
            pos = {si: di for (si, _), (di, _) in zip(src, dst)}
            out = [1] * len(shape)
            for (si, s), (di, _) in zip(src, dst):
                out[di] = s
            return T(SymArray._make(tuple(out), lambda *ix: f(*[ix[pos[i]] if i in pos else z3.IntVal(0) for i in range(nd)]), self.a.kind))
        raise Unsupported("view")

    # -- arithmetic
    def _b(self, op, o, swap=False):
        o = arr(o)
        r = getattr(self.a, op)(o)
        return T(r)

    def long(self):
        return T(symnp.umap(lambda e: z3.If(e, z3.IntVal(1), z3.IntVal(0)) if e.sort() == core.BOOL else core.to_int(e), self.a, "i"))

    def __neg__(self):
        return T(-self.a)

    def __invert__(self):
        return T(~self.a)

    def clamp_min(self, x):
        return T(symnp.umap(lambda e: z3.If(core._num(e) < lift(float(x)), lift(float(x)), core.to_real(e)), self.a, "f"))

    def clamp_max(self, x):
        return T(symnp.umap(lambda e: z3.If(core._num(e) > lift(float(x)), lift(float(x)), core.to_real(e)), self.a, "f"))

    def exp(self):
        return T(symnp.np.exp(self.a))

    def sqrt(self):
        return T(symnp.np.sqrt(self.a))

    # -- reductions
    def _red(self, which, dim, keepdim=False):
        r = which(self.a, dim)
        r = SymTensor(r) if symnp.is_symarray(r) else T(SymArray._make((), lambda r=r: lift(r), core.kind_of(lift(r)) if hasattr(core, "kind_of") else "f"))
        return r.unsqueeze(dim) if keepdim else r

    def all(self, dim=None):
        return self._red(symnp._all, dim)

    def any(self, dim=None):
        return self._red(symnp._any, dim)

    def sum(self, dim=None):
        return self._red(symnp._sum, dim)

    def prod(self, dim=-1):
        d = dim + self.ndim if dim < 0 else dim
        n, f = self.a._shape[d], self.a._snapshot()
        if not conc(n):
            raise Unsupported("product of unknown length")

        def el(*ix):
            r = z3.RealVal(1)
            for k in range(n):
                r = r * core.to_real(f(*ix[:d], z3.IntVal(k), *ix[d:]))
            return r

        return T(SymArray._make(self.a._shape[:d] + self.a._shape[d + 1 :], el, "f"))

    def max(self, dim=None, keepdim=False):
        r = self._red(lambda a, d: symnp._extremum(a, d, "max"), dim, keepdim)
        return r if dim is None else MinMax(r, None)

    def min(self, dim=None, keepdim=False):
        r = self._red(lambda a, d: symnp._extremum(a, d, "min"), dim, keepdim)
        return r if dim is None else MinMax(r, None)

    def argmax(self, dim=None):
        """the first index of a largest entry (what torch returns on the CPU for 0/1 entries)"""
        if dim is None:
            return T(symnp.argmax_(self.a))
        d = dim + self.ndim if dim < 0 else dim
        rest = self.a._shape[:d] + self.a._shape[d + 1 :]
        n, f, c = I(self.a._shape[d]), self.a._snapshot(), core.ctx()
        A = z3.Function(c.name("amax"), *([core.INT] * len(rest)), core.INT)
        P, k = [z3.Int(c.name("am")) for _ in rest], z3.Int(c.name("amk"))
        rng = z3.And(*[in_range(p, m) for p, m in zip(P, rest)])
        at = lambda x: core._num(f(*P[:d], x, *P[d:]))
        c.axiom(z3.ForAll(P, z3.Implies(z3.And(rng, n > 0), z3.And(A(*P) >= 0, A(*P) < n)), patterns=[A(*P)]))
        c.axiom(z3.ForAll(P + [k], z3.Implies(z3.And(rng, k >= 0, k < n), z3.And(at(k) <= at(A(*P)), z3.Implies(k < A(*P), at(k) < at(A(*P))))), patterns=[z3.MultiPattern(A(*P), at(k))] if _pat_ok(at(k), [k]) else None)
                if _pat_ok(at(k), [k]) else z3.ForAll(P + [k], z3.Implies(z3.And(rng, k >= 0, k < n), z3.And(at(k) <= at(A(*P)), z3.Implies(k < A(*P), at(k) < at(A(*P)))))))
        return T(SymArray._make(rest, lambda *ix: A(*ix), "i"))

    def scatter_(self, dim, index, value):
        """self[index[i]] = value along the only axis"""
        d = dim + self.ndim if dim < 0 else dim
        if self.ndim != 1 or d != 0:
            raise Unsupported("scatter rank")
        c = core.ctx()
        g, m = arr(index)._snapshot(), I(arr(index)._shape[0])
        old = self.a._snapshot()
        val = lift(bool(value)) if self.a.kind == "b" else lift(value)

        def el(i):
            k = z3.Int(c.name("sc"))
            return z3.If(z3.Exists([k], z3.And(k >= 0, k < m, g(k) == i)), val, old(i))

        self.a._store.elem = el
        return self

    def gather(self, dim, index):
        d = dim + self.ndim if dim < 0 else dim
        f, ia = self.a._snapshot(), arr(index)
        g = ia._snapshot()
        return T(SymArray._make(ia._shape, lambda *ix: f(*ix[:d], g(*ix), *ix[d + 1 :]), self.a.kind))

    def __getitem__(self, index):
        r = self.a[_ix(index)]
        return SymTensor(r) if symnp.is_symarray(r) else T(SymArray._make((), lambda r=r: lift(r), symnp.kind_of(lift(r))))

    def __setitem__(self, index, value):
        self.a[_ix(index)] = arr(value)

    def __format__(self, s):
        return "tensor"

    __hash__ = None


def _pat_ok(e, vs):
    """usable as a pattern: an application of an uninterpreted function mentioning every variable"""
    return False


for _op in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "pow", "rpow", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"):
    setattr(SymTensor, f"__{_op}__", (lambda q: lambda self, o: self._b(q, o))(f"__{_op}__"))


def zeros_like(a, **k):
    a = arr(a)
    z = {"b": z3.BoolVal(False), "i": z3.IntVal(0)}.get(a.kind, z3.RealVal(0))
    return T(SymArray._make(a._shape, lambda *ix: z, a.kind))


def full_like(a, v, **k):
    a = arr(a)
    return T(SymArray._make(a._shape, lambda *ix: lift(v), a.kind))


def _dk(dtype):
    if dtype in ("f", "i", "b"):
        return dtype
    return {_torch.bool: "b", _torch.long: "i"}.get(dtype, "f")


def full(shape, v, dtype=None, device=None):
    kd = _dk(dtype)
    e = lift(bool(v)) if kd == "b" else (lift(int(v)) if kd == "i" else lift(float(v) if not core.is_sym(v) else v)) if not isinstance(v, core.Sym) else lift(v)
    return T(SymArray._make(tuple(shape), lambda *ix: e, kd))


def _shaped(v):
    def f(*shape, dtype=None, device=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return full(shape, v, dtype)

    return f


def cat(ts, dim=0):
    ts = [arr(t) for t in ts]
    d = dim + ts[0].ndim if dim < 0 else dim
    return T(symnp.concatenate(ts, axis=d))


def stack(ts, dim=0):
    n = ts[0].ndim + 1
    d = dim + n if dim < 0 else dim
    return cat([T(arr(t)).unsqueeze(d) for t in ts], d)


def split(t, size, dim=0):
    d = dim + t.ndim if dim < 0 else dim
    n = t.shape[d]
    if not conc(n):
        raise Unsupported("split of unknown length")
    return [t[tuple([slice(None)] * d + [slice(i, i + size)])] for i in range(0, n, size)]


def where(c, a, b):
    return T(symnp.where(arr(c), arr(a), arr(b)))


def minimum(a, b):
    return T(symnp.np.minimum(arr(a), arr(b)))


def argsort(a, dim=-1):
    return T(symnp.argsort(arr(a)))


def tensor(x, dtype=None, device=None):
    x = arr(x)
    return T(symnp.asarray(x) if not symnp.is_symarray(x) else x.copy())


def equal(a, b):
    raise Unsupported("torch.equal")


TABLE = dict(zeros_like=zeros_like, full_like=full_like, cat=cat, stack=stack, split=split, where=where, min=minimum, argsort=argsort, tensor=tensor, from_numpy=tensor, equal=equal)
SHAPED = dict(zeros=_shaped(0), ones=_shaped(1), empty=_shaped(0))


class TensorShim(metaclass=Meta):
    """torch.Tensor of the shadow modules"""

    def __new__(cls, x=None, *a):
        if core._CTX and symnp.has_sym((x,)) or isinstance(x, SymTensor):
            return T(arr(x))
        return _torch.Tensor(x, *a) if x is not None else _torch.Tensor()


class TorchShim:
    Tensor = TensorShim

    def __getattr__(self, n):
        r = getattr(_torch, n)
        if n == "Size":
            return lambda x=(): tuple(x) if core._CTX else _torch.Size(x)
        if n in TABLE or n in SHAPED or n == "full":

            def call(*a, **k):
                if core._CTX and (symnp.has_sym(a) or symnp.has_sym(tuple(k.values())) or any(v in ("f", "i", "b") for v in k.values() if isinstance(v, str))):
                    if n == "full":
                        return full(*a, **k)
                    return (TABLE.get(n) or SHAPED[n])(*a, **k)
                return r(*a, **k)

            return call
        return r


torch = TorchShim()
