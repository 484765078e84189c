"""Symbolic-length lists and arrays, and the NumPy operations on them.

The semantics given here to each NumPy operation is the assumed (trusted) contract of the
dependency; `selftest.py` cross-checks every one of them against real NumPy on concrete
arrays (CPython cross-check)."""
import builtins
import itertools

import numpy as _np

from . import core
from .core import (
    BOOL, INT, REAL, U, Val, Sym, SymBool, SymNum, SymObj, SymVal, Unsupported, coerce, ctx, elem_op, eq, is_sym,
    kind_of, lift, num_pair, to_bool, to_int, to_real, to_val, unify, wrap, z3, mentions,
)

newaxis = None


def I(x):
    """length / index -> z3 Int"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SymNum):
        return x.e
    return z3.IntVal(int(x))


def L(e):
    """z3 Int -> python length"""
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SymNum(e)


def conc(x):
    return isinstance(x, int)


def same(a, b):
    return (a == b) if (conc(a) and conc(b)) else I(a).eq(I(b))


def decide_eq(a, b):
    if same(a, b):
        return True
    return ctx().decide(I(a) == I(b))


def in_range(k, n):
    return z3.And(k >= 0, k < I(n))


class Undo:
    __slots__ = ("obj", "attr", "old")

    def __init__(self, obj, attr, old):
        self.obj, self.attr, self.old = obj, attr, old

    def rollback(self):
        object.__setattr__(self.obj, self.attr, self.old)


def journal(obj, attr):
    c = ctx()
    if c.journal is not None:
        c.journal.append(Undo(obj, attr, getattr(obj, attr)))


# ---------------------------------------------------------------- substitution / merging
def subst(v, k, i):
    """python value template with z3 var k -> value at i"""
    if isinstance(v, Sym):
        if not mentions(v.e, k):
            return v
        return wrap(z3.substitute(v.e, (k, i)))
    if v is None or isinstance(v, (bool, int, float, str, _np.generic)):
        return v
    if isinstance(v, tuple):
        return tuple(subst(x, k, i) for x in v)
    if isinstance(v, list):
        return [subst(x, k, i) for x in v]
    if isinstance(v, dict):
        return {a: subst(b, k, i) for a, b in v.items()}
    if isinstance(v, SymSeq):
        el = v._elem
        return SymSeq(subst_len(v.n, k, i), lambda j: subst(el(j), k, i), v.pykind)
    if is_symarray(v):
        at = v._snapshot()
        r = SymArray._make(tuple(subst_len(s, k, i) for s in v._shape), lambda *ix: z3.substitute(at(*ix), (k, i)), v.kind)
        if type(v) is not SymArray:
            raise Unsupported("substitution in an ndarray subclass")
        return r
    if callable(v):
        raise Unsupported("callable produced by a generic iteration")
    if hasattr(v, "__pyvc_subst__"):
        return v.__pyvc_subst__(k, i)
    if isinstance(v, _np.ndarray):
        return v
    raise Unsupported(f"object of type {type(v).__name__} produced by a generic iteration")


def subst_len(n, k, i):
    if conc(n):
        return n
    return L(z3.substitute(I(n), (k, i)))


def ite(c, a, b):
    """merge two python values under z3 condition c"""
    if a is b:
        return a
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and type(a) is type(b) and len(a) == len(b):
        return type(a)(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict) and list(a) == list(b):
        return {k: ite(c, a[k], b[k]) for k in a}
    if is_symarray(a) or is_symarray(b):
        a, b = to_symarray(a), to_symarray(b)
        if a.ndim != b.ndim:
            raise Unsupported("merge of arrays of different rank")
        fa, fb = a._snapshot(), b._snapshot()
        shp = tuple(x if same(x, y) else L(z3.If(c, I(x), I(y))) for x, y in zip(a._shape, b._shape))
        k = common_kind(a.kind, b.kind)
        return SymArray._make(shp, lambda *ix: z3.If(c, coerce(fa(*ix), k), coerce(fb(*ix), k)), k)
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        a, b = to_seq(a), to_seq(b)
        n = a.n if same(a.n, b.n) else L(z3.If(c, I(a.n), I(b.n)))
        fa, fb = a._elem, b._elem
        return SymSeq(n, lambda i: ite(c, fa(i), fb(i)))
    try:
        x, y = lift(a), lift(b)
    except Unsupported:
        if type(a) is type(b) and hasattr(a, "__pyvc_ite__"):
            return a.__pyvc_ite__(c, b)
        try:
            if a == b:
                return a
        except Exception:
            pass
        raise Unsupported(f"merge of {type(a).__name__} and {type(b).__name__}")
    x, y = unify(x, y)
    if x.eq(y):
        return a
    return wrap(z3.If(c, x, y))


def merge(outs):
    """[(decisions, value)] -> value"""
    if not outs:
        raise core.PathDone()
    v = outs[-1][1]
    for decs, val in reversed(outs[:-1]):
        v = ite(z3.And(*decs) if decs else z3.BoolVal(True), val, v)
    return v


def generic(fn, n, base="k"):
    """evaluate fn(k) for a generic 0<=k<n; returns (k, merged template). Exceptional
    outcomes become a top-level branch: if some index raises, the exception is raised."""
    c = ctx()
    k = c.fresh_var(base)
    guard = in_range(k, n)
    idx = wrap_int(k)

    start = Store.count

    def on_path(journal):
        # writes to arrays that the iteration itself created are its own business
        journal[:] = [u for u in journal if not (isinstance(u.obj, Store) and u.obj.born > start)]
        if journal:
            raise Unsupported(f"heap write inside a comprehension: {[(type(j.obj).__name__, j.attr) for j in journal][:4]}")

    outs = c.explore(lambda: fn(idx), var=k, guard=guard, on_path=on_path)
    excs = [(d, r[1]) for d, r, _ in outs if r[0] == "exc"]
    oks = [(d, r[1]) for d, r, _ in outs if r[0] == "ok"]
    if excs:
        for d, e in excs:
            bad = z3.Exists([k], z3.And(guard, *d))
            if c.decide(bad):
                raise e
    if not oks:
        return k, None
    return k, merge(oks)


def wrap_int(e):
    return SymNum(e)


def _match(t, e, x):
    """j with t[x := j] == e syntactically, or None"""
    if t.eq(x):
        return e
    if not (z3.is_app(t) and z3.is_app(e)) or not t.decl().eq(e.decl()) or t.num_args() != e.num_args():
        return None
    found = None
    for a, b in zip(t.children(), e.children()):
        if a.eq(b):
            continue
        j = _match(a, b, x)
        if j is None or (found is not None and not found.eq(j)):
            return None
        found = j
    return found


# ---------------------------------------------------------------- lists
def pick(cond, a, b):
    """a() or b(): the side that is not taken is not evaluated when the condition is decided by constants alone"""
    if z3.is_app(cond) and all(z3.is_int_value(t) for t in cond.children()):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return a()
        if z3.is_false(cond):
            return b()
    return ite(cond, a(), b())


class SymSeq:
    """a python list of symbolic length; elem(k) gives the python value at index k"""

    _is_sym = True
    __array_ufunc__ = None

    def __init__(self, n, elem, pykind="list"):
        self.n = n if conc(n) or isinstance(n, SymNum) else L(n)
        self._elem = elem
        self.pykind = pykind

    def at(self, k):
        return self._elem(I(k))

    def __len__(self):
        if conc(self.n):
            return self.n
        raise Unsupported("len() of a symbolic list outside shadow builtins")

    def __bool__(self):
        return ctx().decide(I(self.n) > 0)

    def __iter__(self):
        if conc(self.n):
            return iter([self.at(i) for i in range(self.n)])
        raise Unsupported("iteration over a symbolic-length list")

    def __getitem__(self, ix):
        if isinstance(ix, slice):
            a, ln, st = slice_range(ix, self.n)
            el = self._elem
            if st == 1:
                return SymSeq(ln, lambda k: el(a + k), self.pykind)
            return SymSeq(ln, lambda k: el(a - k), self.pykind)
        k = norm_index(ix, self.n)
        return self._elem(k)

    def __setitem__(self, ix, v):
        if isinstance(ix, slice):
            raise Unsupported("slice assignment on a symbolic list")
        k = norm_index(ix, self.n)
        journal(self, "_elem")
        old = self._elem
        self._elem = lambda i: pick(i == k, lambda: v, lambda: old(i))

    def append(self, v):
        journal(self, "_elem")
        journal(self, "n")
        old, n = self._elem, I(self.n)
        self._elem = lambda i: pick(i == n, lambda: v, lambda: old(i))
        self.n = L(n + 1)

    def pop(self, ix=-1):
        if not ctx().decide(I(self.n) > 0):
            raise IndexError("pop from empty list")
        k = norm_index(ix, self.n)
        v = self._elem(k)
        journal(self, "_elem")
        journal(self, "n")
        old = self._elem
        self._elem = lambda i: old(z3.If(i < k, i, i + 1))
        self.n = L(I(self.n) - 1)
        return v

    def extend(self, o):
        r = self + o
        journal(self, "_elem")
        journal(self, "n")
        self._elem, self.n = r._elem, r.n

    def __add__(self, o):
        if is_symarray(o):
            return NotImplemented
        o = to_seq(o)
        n, fa, fb = I(self.n), self._elem, o._elem
        if conc(o.n) and o.n == 0:
            return SymSeq(self.n, fa)
        if conc(self.n) and self.n == 0:
            return SymSeq(o.n, fb)
        return SymSeq(L(n + I(o.n)), lambda i: pick(i < n, lambda: fa(i), lambda: fb(z3.simplify(i - n) if z3.is_int_value(i) and z3.is_int_value(n) else i - n)))

    def __radd__(self, o):
        return to_seq(o) + self

    def __mul__(self, o):
        if conc(self.n) and self.n == 1:
            v = self.at(0)
            return SymSeq(L(z3.If(I(o) > 0, I(o), 0)) if not conc(o) else max(0, o), lambda i: v)
        if conc(o) and 1 <= o <= 8:
            r = SymSeq(self.n, self._elem)
            for _ in range(o - 1):
                r = r + self
            return r
        raise Unsupported("repetition of a symbolic list")

    __rmul__ = __mul__

    def copy(self):
        return SymSeq(self.n, self._elem, self.pykind)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.copy()

    def __contains__(self, v):
        k, t = generic(lambda i: scalar_eq(self.at(i), v), self.n)
        if t is None:
            return False
        return ctx().decide(z3.Exists([k], z3.And(in_range(k, self.n), lift(t))))

    def __eq__(self, o):
        return seq_eq(self, o)

    def __ne__(self, o):
        r = seq_eq(self, o)
        return ~r if isinstance(r, Sym) else not r

    __hash__ = None

    def index(self, v):
        c = ctx()
        if isinstance(v, Sym):
            # v is syntactically the j-th element of a list without repetitions
            x = z3.Int("index!probe")
            j = _match(lift(self.at(x)), v.e, x)
            if j is not None:
                a, b = c.fresh_var("a"), c.fresh_var("b")
                dist = z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < I(self.n)), z3.Not(core.eq(lift(self.at(a)), lift(self.at(b))))))
                if c._check(z3.Not(z3.And(in_range(j, self.n), dist)), 5000) == z3.unsat:
                    return SymNum(j)
        k, t = generic(lambda i: scalar_eq(self.at(i), v), self.n)
        ex = z3.Exists([k], z3.And(in_range(k, self.n), lift(t)))
        if not c.decide(ex):
            raise ValueError("not in list")
        j = c.fresh_int("index")
        c.assume(in_range(j, self.n))
        c.assume(z3.substitute(lift(t), (k, j)))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < j), z3.Not(lift(t)))))
        return SymNum(j)

    def __str__(self):
        return "<symlist>"

    __repr__ = __str__


def scalar_eq(a, b):
    r = a == b
    return r


def seq_eq(a, b):
    a, b = to_seq(a), to_seq(b)
    if not decide_eq(a.n, b.n):
        return False
    k, t = generic(lambda i: scalar_eq(a.at(i), b.at(i)), a.n)
    if t is None:
        return True
    return wrap(forall(k, a.n, lift(t)))


def to_seq(x):
    if isinstance(x, SymSeq):
        return x
    if is_symarray(x):
        return x.tolist()
    if isinstance(x, _np.ndarray):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        xs = list(x)

        def el(i):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return xs[i.as_long()]
            if not xs:
                raise Unsupported("element of an empty list")
            v = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                v = ite(i == j, xs[j], v)
            return v

        return SymSeq(len(xs), el)
    if isinstance(x, builtins.range):
        return to_seq(list(x))
    if hasattr(x, "__iter__"):
        return to_seq(list(x))
    raise Unsupported(f"to_seq {type(x).__name__}")


def forall(k, n, body):
    if conc(n):
        if n <= 8:
            return z3.And(*[z3.substitute(body, (k, z3.IntVal(i))) for i in range(n)]) if n else z3.BoolVal(True)
    return z3.ForAll([k], z3.Implies(in_range(k, n), body))


def exists(k, n, body):
    if conc(n):
        if n <= 8:
            return z3.Or(*[z3.substitute(body, (k, z3.IntVal(i))) for i in range(n)]) if n else z3.BoolVal(False)
    return z3.Exists([k], z3.And(in_range(k, n), body))


def norm_index(ix, n):
    """bounds-checked element index -> z3 Int"""
    if isinstance(ix, (bool, _np.bool_)):
        raise Unsupported("bool index")
    if isinstance(ix, (int, _np.integer)):
        ix = int(ix)
        k = z3.IntVal(ix) if ix >= 0 else I(n) + ix
    elif isinstance(ix, SymNum) and ix.is_int():
        k = ix.e
    elif isinstance(ix, SymVal):
        k = to_int(ix.e)
    elif isinstance(ix, SymBool):
        k = to_int(ix.e)
    elif isinstance(ix, z3.ExprRef):
        k = ix
    else:
        raise TypeError(f"list indices must be integers, not {type(ix).__name__}")
    if conc(n) and z3.is_int_value(z3.simplify(k)):
        v = z3.simplify(k).as_long()
        if not 0 <= v < n:
            raise IndexError("index out of range")
        return z3.IntVal(v)
    if isinstance(ix, SymNum):
        if not ctx().decide(k >= 0):
            k = I(n) + k
    if not ctx().decide(in_range(k, n)):
        raise IndexError("index out of range")
    return k


def slice_range(sl, n):
    """-> (start z3, length, step in {1,-1})"""
    st = 1 if sl.step is None else sl.step
    if st not in (1, -1):
        raise Unsupported("slice step")
    N = I(n)
    if st == -1:
        if sl.start is not None or sl.stop is not None:
            raise Unsupported("reversed partial slice")
        return N - 1, n, -1

    def norm(x, default):
        if x is None:
            return default
        e = I(x) if not isinstance(x, SymVal) else to_int(x.e)
        if conc(x):
            if x < 0:
                e = N + x
                return z3.simplify(z3.If(e < 0, z3.IntVal(0), e))
            if x == 0:
                return z3.IntVal(0)
            if conc(n):
                return z3.IntVal(min(x, n))
            return z3.If(N < x, N, z3.IntVal(x))
        if e.eq(N):
            return N
        e = z3.If(e < 0, z3.If(N + e < 0, z3.IntVal(0), N + e), e)
        return z3.simplify(z3.If(e > N, N, e))

    a, b = norm(sl.start, z3.IntVal(0)), norm(sl.stop, N)
    ln = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    if sl.start is None and sl.stop is None:
        return z3.IntVal(0), n, 1
    # try to simplify the clamps with the path condition
    if not z3.is_int_value(ln):
        if sl.start is None and not conc(sl.stop) and sl.stop is not None:
            s = I(sl.stop)
            if ctx()._check(z3.Not(z3.And(s >= 0, s <= N)), 1000) == z3.unsat:
                return z3.IntVal(0), L(s), 1
        if sl.stop is None and not conc(sl.start):
            s = I(sl.start)
            if ctx()._check(z3.Not(z3.And(s >= 0, s <= N)), 1000) == z3.unsat:
                return s, L(N - s), 1
        if sl.start is not None and sl.stop is not None:
            s, t = I(sl.start), I(sl.stop)
            if ctx()._check(z3.Not(z3.And(s >= 0, s <= t, t <= N)), 1000) == z3.unsat:
                return s, L(t - s), 1
    return a, L(ln), 1


# ---------------------------------------------------------------- arrays
class Store:
    __slots__ = ("elem", "kind", "born", "alias")
    count = 0

    def __init__(self, elem, kind):
        self.elem, self.kind = elem, kind
        self.alias = False
        Store.count += 1
        self.born = Store.count


def is_symarray(x):
    return getattr(type(x), "_is_symarray", False)


class _ArrMeta(type):
    def __instancecheck__(cls, x):
        if type.__instancecheck__(cls, x):
            return True
        return cls is SymArray and type.__instancecheck__(_np.ndarray, x)


def common_kind(a, b):
    if a == b:
        return a
    if a in core._RANK and b in core._RANK:
        return a if core._RANK[a] > core._RANK[b] else b
    return "O"


def dtype_kind(t):
    if t is None:
        return None
    if isinstance(t, str) and t in ("f", "i", "b", "O", "U"):
        return t
    if callable(t) and not isinstance(t, type) and getattr(t, "__name__", None) == "float64":  # np.float64 of the shadow package
        return "f"
    if t in (float, "float", "float64", _np.float64, "f8", _np.float32):
        return "f"
    if t in (int, "int", "int64", _np.int64, _np.int_):
        return "i"
    if t in (bool, "bool", _np.bool_):
        return "b"
    if t in (object, "object", "O"):
        return "O"
    if t in (str, "str", _np.str_):
        return "U"
    d = _np.dtype(t)
    return {"f": "f", "i": "i", "b": "b", "O": "O", "U": "U", "u": "i"}[d.kind]


class _DType:
    def __init__(self, kind):
        self.kind = kind
        self.type = {"f": _np.float64, "i": _np.int64, "b": _np.bool_, "O": _np.object_, "U": _np.str_}[kind]
        self.name = {"f": "float64", "i": "int64", "b": "bool", "O": "object", "U": "str"}[kind]

    def __eq__(self, o):
        try:
            return dtype_kind(o.kind if isinstance(o, _DType) else o) == self.kind
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class SymArray(metaclass=_ArrMeta):
    _is_sym = True
    _is_symarray = True
    __array_ufunc__ = None
    __array_priority__ = 1000

    # -- construction
    @classmethod
    def _new(cls, shape, store, vmap=None, vinv=None):
        o = object.__new__(cls)
        d = o.__dict__
        d["_shape"] = shape
        d["_store"] = store
        d["_vmap"] = vmap
        d["_vinv"] = vinv
        d["_gather"] = None
        return o

    @staticmethod
    def _make(shape, elem, kind):
        shape = tuple(s if conc(s) or isinstance(s, SymNum) else L(s) for s in shape)
        return SymArray._new(shape, Store(elem, kind))

    # -- reading
    @property
    def kind(self):
        return self._store.kind

    def _at(self, *ix):
        ix = tuple(I(i) for i in ix)
        if self._vmap is not None:
            ix = self._vmap(*ix)
        return self._store.elem(*ix)

    def _snapshot(self):
        """closure of the current contents"""
        el, vm = self._store.elem, self._vmap
        if vm is None:
            return el
        return lambda *ix: el(*vm(*ix))

    # -- writing: upd(view idx) -> (cond, z3 val)
    def _write(self, upd):
        st = self._store
        if st.alias:
            raise Unsupported("writing into a reshaped array")
        journal(st, "elem")
        old, inv, kind = st.elem, self._vinv, st.kind

        def new(*ix):
            if inv is None:
                c0, vix = None, ix
            else:
                c0, vix = inv(*ix)
            c1, v = upd(*vix)
            conds = [c for c in (c0, c1) if c is not None and not z3.is_true(c)]
            v = coerce(v, kind)
            if not conds:
                return v
            c = z3.simplify(z3.And(*conds))
            if z3.is_true(c):
                return v
            o = old(*ix)
            if z3.is_false(c):
                return o
            return z3.If(c, v, o)

        st.elem = new

    # -- python protocol
    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        raise Unsupported("setting .shape")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def size(self):
        r = 1
        for s in self._shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return _DType(self.kind)

    def __len__(self):
        n = self._shape[0]
        if conc(n):
            return n
        raise Unsupported("len() of symbolic array outside shadow builtins")

    def __bool__(self):
        if all(conc(s) and s == 1 for s in self._shape):
            return ctx().decide(to_bool(self._at(*[0] * self.ndim)))
        n = self.size
        if ctx().decide(I(n) == 1):
            return ctx().decide(to_bool(self._at(*[0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        if conc(self._shape[0]):
            return iter([self[i] for i in range(self._shape[0])])
        raise Unsupported("iteration over a symbolic-length array")

    def __contains__(self, v):
        r = (self == v).any()
        return bool(r)

    def __str__(self):
        return "<symarray>"

    __repr__ = __str__

    def __format__(self, s):
        return "<symarray>"

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # -- ndarray subclass protocol
    def __array_finalize__(self, obj):
        pass

    def view(self, cls=None):
        cls = SymArray if cls in (None, _np.ndarray) else cls
        o = cls._new(self._shape, self._store, self._vmap, self._vinv)
        o.__dict__["_gather"] = self._gather
        o.__array_finalize__(self)
        return o

    def _derive(self, arr):
        """result of an ndarray method keeps the subclass"""
        if type(self) is SymArray:
            return arr
        o = type(self)._new(arr._shape, arr._store, arr._vmap, arr._vinv)
        o.__array_finalize__(self)
        return o

    def copy(self):
        return self._derive(SymArray._make(self._shape, self._snapshot(), self.kind))

    def astype(self, t, copy=True):
        k = dtype_kind(t)
        f, kk = self._snapshot(), self.kind
        r = SymArray._make(self._shape, lambda *ix: conv(f(*ix), k), k)
        return self._derive(r)

    def tolist(self):
        f = self._snapshot()
        if self.ndim == 0:
            return wrap(f())
        if self.ndim == 1:
            return _lst(self._shape[0], lambda i: wrap(f(i)))
        if self.ndim == 2:
            m = self._shape[1]
            return _lst(self._shape[0], lambda i: _lst(m, lambda j: wrap(f(i, j))))
        raise Unsupported("tolist of rank > 2")

    def item(self):
        if self.ndim == 0:
            return wrap(self._at())
        if all(conc(s) and s == 1 for s in self._shape):
            return wrap(self._at(*[0] * self.ndim))
        if ctx().decide(I(self.size) == 1):
            return wrap(self._at(*[0] * self.ndim))
        raise ValueError("can only convert an array of size 1")

    @property
    def T(self):
        return self.transpose()

    def transpose(self):
        if self.ndim < 2:
            return self
        if self.ndim != 2:
            raise Unsupported("transpose rank")
        vm, vi = self._vmap, self._vinv
        m2 = (lambda i, j: (j, i)) if vm is None else (lambda i, j: vm(j, i))

        def inv(*ix):
            if vi is None:
                return None, (ix[1], ix[0])
            c, v = vi(*ix)
            return c, (v[1], v[0])

        return self._derive(SymArray._new((self._shape[1], self._shape[0]), self._store, m2, inv))

    def ravel(self):
        if self.ndim == 1:
            return self._derive(SymArray._new(self._shape, self._store, self._vmap, self._vinv))
        return self.reshape(-1)

    def flatten(self):
        r = self.reshape(-1)
        return r.copy()

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return self._derive(_reshape(self, shape))

    # -- arithmetic
    def _bin(self, op, other, swap=False):
        if isinstance(other, (list, tuple, SymSeq)):
            other = to_symarray(other)
        o = to_symarray(other)
        a, b = (o, self) if swap else (self, o)
        r = broadcast(lambda x, y: elem_op(op, x, y), a, b)
        if isinstance(r, SymArray) and op not in ("==", "!=", "<", "<=", ">", ">="):
            return self._derive(r)
        return r

    def _ibin(self, op, other):
        r = SymArray._bin(self, op, other)
        if self.kind == "i" and to_symarray(r).kind == "f":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        SymArray.__setitem__(self, Ellipsis, r)
        return self

    for _n, _o in (
        ("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"),
        ("and", "&"), ("or", "|"), ("xor", "^"),
    ):
        exec(
            f"def __{_n}__(self, o): return self._bin('{_o}', o)\n"
            f"def __r{_n}__(self, o): return self._bin('{_o}', o, True)\n"
            f"def __i{_n}__(self, o): return self._ibin('{_o}', o)"
        )
    for _n, _o in (("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")):
        exec(f"def __{_n}__(self, o): return SymArray._bin(self, '{_o}', o)")

    def __neg__(self):
        return self._derive(umap(lambda x: -core._num(x), self))

    def __invert__(self):
        if self.kind != "b":
            raise Unsupported("invert of ints")
        return self._derive(umap(z3.Not, self))

    def __abs__(self):
        return self._derive(umap(core.mk_abs, self))

    # -- reductions
    def all(self, axis=None, dim=None):
        return _all(self, axis if dim is None else dim)

    def any(self, axis=None, dim=None):
        return _any(self, axis if dim is None else dim)

    def sum(self, axis=None, dim=None):
        return _sum(self, axis if dim is None else dim)

    def min(self, axis=None):
        return _extremum(self, axis, "min")

    def max(self, axis=None):
        return _extremum(self, axis, "max")

    def mean(self, axis=None):
        return _mean(self, axis)

    def dot(self, o):
        return dot(self, o)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def clip(self, a=None, b=None):
        return clip(self, a, b)

    def fill(self, v):
        self[...] = v

    # -- indexing
    def __getitem__(self, index):
        return _getitem(self, index)

    def __setitem__(self, index, value):
        if value is self and isinstance(index, slice) and index == slice(None):
            return  # a[:] = a
        _setitem(self, index, value)


def _lst(n, f):
    """symbolic or concrete python list"""
    if conc(n):
        return [f(z3.IntVal(i)) for i in range(n)]
    return SymSeq(n, f)


def conv(e, k):
    if k == "U" and e.sort() != U:
        if e.sort() == INT:
            return core.STR_I(e)
        if e.sort() == REAL:
            return core.STR_R(e)
        if e.sort() == Val:
            return z3.If(Val.is_VO(e), Val.vo(e), core.STR_V(e))
        raise Unsupported("conversion to str")
    if k in ("f", "i", "b") and e.sort() == U:
        raise ValueError("could not convert string to float")
    return coerce(e, k)


def to_symarray(x, kind=None):
    if is_symarray(x):
        return x
    if isinstance(x, Sym):
        e = x.e
        return SymArray._make((), lambda: e, kind_of(e))
    if isinstance(x, SymSeq):
        return _array_from_seq(x)
    if isinstance(x, _np.ndarray):
        if x.ndim == 0:
            return to_symarray(x.item())
        return to_symarray(x.tolist(), {"f": "f", "i": "i", "b": "b", "O": "O", "U": "U"}.get(x.dtype.kind)) if x.size else _empty_conc(x)
    if isinstance(x, (list, tuple)):
        return _array_from_list(list(x), kind)
    if isinstance(x, builtins.range):
        return to_symarray(list(x))
    e = lift(x)
    return SymArray._make((), lambda: e, kind_of(e))


def _empty_conc(x):
    k = {"f": "f", "i": "i", "b": "b", "O": "O", "U": "U"}.get(x.dtype.kind, "O")
    d = {"f": z3.RealVal(0), "i": z3.IntVal(0), "b": z3.BoolVal(False), "O": Val.VN, "U": core.intern_const("")}[k]
    return SymArray._make(x.shape, lambda *ix: d, k)


def _array_from_list(xs, kind=None):
    if len(xs) == 0:
        return SymArray._make((0,), lambda i: z3.RealVal(0), kind or "f")
    if any(isinstance(x, (list, tuple, _np.ndarray, SymSeq)) or is_symarray(x) for x in xs) and kind != "tuple":
        rows = [to_symarray(x) for x in xs]
        if any(r.ndim != rows[0].ndim for r in rows):
            raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        for r in rows[1:]:
            for a, b in zip(r._shape, rows[0]._shape):
                if not decide_eq(a, b):
                    raise ValueError("inhomogeneous shape")
        k = rows[0].kind
        for r in rows[1:]:
            k = common_kind(k, r.kind)
        if kind in ("f", "i", "b", "O"):
            k = kind
        fs = [r._snapshot() for r in rows]

        def el(i, *rest):
            i = z3.simplify(i)
            if z3.is_int_value(i):
                return conv(fs[i.as_long()](*rest), k)
            v = conv(fs[-1](*rest), k)
            for j in range(len(fs) - 2, -1, -1):
                v = z3.If(i == j, conv(fs[j](*rest), k), v)
            return v

        return SymArray._make((len(xs),) + rows[0]._shape, el, k)
    es = [lift(x) for x in xs]
    k = kind if kind in ("f", "i", "b", "O", "U") else None
    if k is None:
        k = kind_of(es[0])
        for e in es[1:]:
            k = common_kind(k, kind_of(e))
    es = [conv(e, k) for e in es]

    def el1(i):
        i = z3.simplify(i)
        if z3.is_int_value(i) and 0 <= i.as_long() < len(es):
            return es[i.as_long()]
        v = es[-1]
        for j in range(len(es) - 2, -1, -1):
            v = z3.If(i == j, es[j], v)
        return v

    return SymArray._make((len(xs),), el1, k)


def _array_from_seq(s):
    if conc(s.n) and 0 < s.n <= 16:
        return _array_from_list([s.at(i) for i in range(s.n)])
    k = ctx().fresh_var("probe")
    t = s.at(k)
    if isinstance(t, (SymSeq, list, tuple, _np.ndarray)) or is_symarray(t):
        inner = to_symarray(t)
        for d in inner._shape:
            if not conc(d) and mentions(I(d), k):
                raise Unsupported("ragged symbolic list")
        f = inner._snapshot()
        return SymArray._make(
            (s.n,) + inner._shape, lambda i, *rest: z3.substitute(f(*rest), (k, i)), inner.kind
        )
    e = lift(t)
    return SymArray._make((s.n,), lambda i: lift(s.at(i)), kind_of(e))


def umap(f, a, kind=None):
    a = to_symarray(a)
    g = a._snapshot()
    if a.ndim == 0:
        return wrap(f(g()))
    if kind is None:
        p = [ctx().fresh_var("p") for _ in a._shape]
        kind = kind_of(ctx_probe(lambda: f(g(*p)), p, a._shape))
    return SymArray._make(a._shape, lambda *ix: f(g(*ix)), kind)


def ctx_probe(fn, vars_, shape):
    """evaluate a template over fresh variables without leaking side axioms"""
    c = ctx()

    def rec(i):
        if i == len(vars_):
            return fn()
        return c.quantify(vars_[i], in_range(vars_[i], shape[i]), lambda: rec(i + 1))

    return rec(0)


def broadcast(f, *args):
    arrs = [to_symarray(a) for a in args]
    nd = max(a.ndim for a in arrs)
    if nd == 0:
        return wrap(f(*[a._at() for a in arrs]))
    shapes = [(1,) * (nd - a.ndim) + a._shape for a in arrs]
    out, plans = [], [[] for _ in arrs]
    for d in range(nd):
        dims = [s[d] for s in shapes]
        r = None
        for x in dims:
            if r is None or (conc(r) and r == 1):
                r = x
            elif conc(x) and x == 1:
                pass
            elif same(x, r):
                pass
            elif conc(x) and conc(r):
                raise ValueError(f"operands could not be broadcast together: {x} vs {r}")
            elif ctx().decide(I(x) == I(r)):
                if conc(x):
                    r = x
            elif ctx().decide(I(x) == 1):
                pass
            elif ctx().decide(I(r) == 1):
                r = x
            else:
                raise ValueError("operands could not be broadcast together")
        out.append(r)
    for ai, s in enumerate(shapes):
        for d in range(nd):
            x = s[d]
            if conc(x) and x == 1 and not (conc(out[d]) and out[d] == 1):
                plans[ai].append("one")
            elif same(x, out[d]):
                plans[ai].append("id")
            else:
                if ctx()._check(I(x) != I(out[d]), 2000) == z3.unsat:
                    plans[ai].append("id")
                else:
                    plans[ai].append("one")
    fs = [a._snapshot() for a in arrs]

    def idx(ai, ix):
        off = nd - arrs[ai].ndim
        return [z3.IntVal(0) if plans[ai][d] == "one" else ix[d] for d in range(off, nd)]

    def el(*ix):
        return f(*[fs[ai](*idx(ai, ix)) for ai in range(len(arrs))])

    p = [ctx().fresh_var("p") for _ in out]
    kind = kind_of(ctx_probe(lambda: el(*p), p, out))
    return SymArray._make(tuple(out), el, kind)


def _bcast_to(value, shape):
    """value as closure over an index of the given target shape"""
    v = to_symarray(value)
    if v.ndim > len(shape):
        # leading ones may be dropped
        extra = v.ndim - len(shape)
        for s in v._shape[:extra]:
            if not decide_eq(s, 1):
                raise ValueError("could not broadcast input array into shape")
        f0 = v._snapshot()
        v = SymArray._make(v._shape[extra:], lambda *ix: f0(*([z3.IntVal(0)] * extra), *ix), v.kind)
    off = len(shape) - v.ndim
    plan = []
    for s, t in zip(v._shape, shape[off:]):
        if same(s, t):
            plan.append(True)
        elif conc(s) and s == 1:
            plan.append(False)
        elif conc(s) and conc(t):
            raise ValueError("could not broadcast input array")
        elif ctx().decide(I(s) == I(t)):
            plan.append(True)
        elif ctx().decide(I(s) == 1):
            plan.append(False)
        else:
            raise ValueError("could not broadcast input array from shape into shape")
    f = v._snapshot()
    return lambda *ix: f(*[i if p else z3.IntVal(0) for i, p in zip(ix[off:], plan)])


# ---- boolean masks -> order preserving gathers
def mask_gather(M, n):
    """M: z3 Int -> z3 Bool over 0..n-1.  Returns (m, s, r): number of true entries, the
    increasing enumeration s: [0,m)->[0,n) and its inverse r."""
    c = ctx()
    if getattr(c, "split_masks", False) and conc(n) and n <= 12 and not c.bound:
        # the proof asked for a case distinction on every entry
        sel = [q for q in range(int(n)) if c.decide(M(z3.IntVal(q)))]

        def pick_(k, xs, default=0):
            k = z3.simplify(k)
            if z3.is_int_value(k):
                return z3.IntVal(xs[k.as_long()] if 0 <= k.as_long() < len(xs) else default)
            e = z3.IntVal(default)
            for q, x in enumerate(xs):
                e = z3.If(k == q, z3.IntVal(x), e)
            return e

        rank = [sel.index(q) if q in sel else 0 for q in range(int(n))]
        return len(sel), (lambda k: pick_(k, sel)), (lambda i: pick_(i, rank))
    probe = z3.Int("probe!mask")
    body = z3.simplify(M(probe))
    key = (body.get_id(), z3.simplify(I(n)).get_id(), tuple(v.get_id() for v, _ in c.bound))
    memo = c.__dict__.setdefault("_masks", {})
    if key in memo:
        ent = memo[key]
        for ax in ent[4]:
            c.axiom(ax)
        return ent[:3]
    if z3.is_true(body):
        r = (n, lambda k: k, lambda i: i)
        memo[key] = r + (body, [])
        return r
    N = I(n)
    m = c.fresh_int("cnt")
    bv = [v for v, _ in c.bound]
    sf = z3.Function(c.name("sel"), *[v.sort() for v in bv], INT, INT)
    rf = z3.Function(c.name("rank"), *[v.sort() for v in bv], INT, INT)

    def s(k):
        k = z3.simplify(k) if not z3.is_app(k) else k
        if z3.is_app(k) and k.decl().eq(rf):
            return k.arg(k.num_args() - 1)
        return sf(*bv, k)

    def r(i):
        if z3.is_app(i) and i.decl().eq(sf):
            return i.arg(i.num_args() - 1)
        return rf(*bv, i)

    k, l, i = z3.Ints(f"mk{c.nfresh} ml{c.nfresh} mi{c.nfresh}")
    sk, sl, ri = sf(*bv, k), sf(*bv, l), rf(*bv, i)
    Mi, Msk = M(i), M(sk)
    axs = [
        z3.And(m >= 0, m <= N),
        z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(sk >= 0, sk < N, Msk, rf(*bv, sk) == k)), patterns=[sk]),
        z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N, Mi), z3.And(ri >= 0, ri < m, sf(*bv, ri) == i)), patterns=[ri]),
        z3.ForAll(
            [k, l],
            z3.Implies(z3.And(k >= 0, k < l, l < m), sk < sl),
            patterns=[z3.MultiPattern(sk, sl)],
        ),
        # emptiness / fullness of the selection
        z3.Implies(m == 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.Not(Mi)))),
        z3.Implies(m > 0, z3.And(sf(*bv, z3.IntVal(0)) >= 0, M(sf(*bv, z3.IntVal(0))), sf(*bv, z3.IntVal(0)) < N)),
        z3.Implies(m == N, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), Mi))),
        z3.Implies(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), Mi)), m == N),
        z3.Implies(m == N, z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), sk == k), patterns=[sk])),
    ]
    for ax in axs:
        c.axiom(ax)
    mm = SymNum(m)
    memo[key] = (mm, s, r, body, axs)
    if not bv:
        c.__dict__.setdefault("_rankfns", []).append(r)
    c._keep.append(body)
    c._keep.append(z3.simplify(I(n)))
    # complementary mask: counts add up
    comp = z3.simplify(z3.Not(body))
    ck = (comp.get_id(), z3.simplify(I(n)).get_id(), key[2])
    c._keep.append(comp)
    if ck in memo and isinstance(memo[ck][0], SymNum):
        c.axiom(memo[ck][0].e + m == N)
    # the same mask over another length: the enumeration of a prefix is a prefix of the enumeration
    # (proved by induction in selftest.py: lemma_prefix)
    if not bv:
        for k2, e2 in list(memo.items()):
            if k2[0] == key[0] and k2 != key and k2[2] == () and isinstance(e2[0], SymNum) and len(e2) > 5:
                for (m1, s1, r1, n1), (m2, s2, r2, n2) in (((m, s, r, N), (e2[0].e, e2[1], e2[2], e2[5])), ((e2[0].e, e2[1], e2[2], e2[5]), (m, s, r, N))):
                    q = z3.Int(c.name("mp"))
                    c.axiom(z3.Implies(z3.And(n1 >= 0, n1 <= n2), z3.And(
                        m1 <= m2, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m1), s1(q) == s2(q)), patterns=[s1(q)]),
                        z3.ForAll([q], z3.Implies(z3.And(q >= m1, q < m2), s2(q) >= n1), patterns=[s2(q)]),
                        z3.Implies(z3.And(n1 < n2, M(n1)), r2(n1) == m1))))
        memo[key] = memo[key] + (N,)
    return memo[key][:3]


def _is_intlike(i):
    return (
        isinstance(i, (int, _np.integer)) and not isinstance(i, (bool, _np.bool_))
        or isinstance(i, SymNum) and i.is_int()
        or isinstance(i, SymVal)
        or isinstance(i, z3.ExprRef)
    )


class Ax:
    """one indexed axis: kind in int/slice/fancy/new"""

    def __init__(self, kind, n=None, f=None, cond=None, inv=None):
        self.kind, self.n, self.f, self.cond, self.inv = kind, n, f, cond, inv


def _fancy(ix, n):
    """1-d index array / mask for an axis of length n"""
    a = to_symarray(ix)
    if a.ndim != 1:
        raise Unsupported("fancy index of rank != 1")
    f = a._snapshot()
    if a.kind == "b":
        if not decide_eq(a._shape[0], n):
            raise IndexError("boolean index did not match indexed array")
        m, s, r = mask_gather(f, n)
        return Ax("fancy", m, s, cond=lambda i: f(i), inv=r)
    if conc(a._shape[0]) and a._shape[0] == 0:
        return Ax("fancy", 0, lambda k: z3.IntVal(0), cond=lambda i: z3.BoolVal(False), inv=lambda i: i)
    if a.kind not in ("i", "O"):
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    g = a._gather
    if g is not None:
        m, s, r, M, nn = g
        if same(nn, n) or ctx()._check(I(nn) != I(n), 1500) == z3.unsat:
            return Ax("fancy", m, s, cond=M, inv=r)
    m = a._shape[0]
    c = ctx()
    fi = lambda k: to_int(f(k))
    k = c.fresh_var("fk")
    ok = c.quantify(k, in_range(k, m), lambda: z3.And(fi(k) >= -I(n), fi(k) < I(n)))
    if not c.decide(forall(k, m, ok)):
        raise IndexError("index out of bounds")
    nonneg = c.quantify(k, in_range(k, m), lambda: fi(k) >= 0)
    if c._check(z3.Not(forall(k, m, nonneg)), 2000) == z3.unsat:
        fn = fi
    else:
        fn = lambda kk: z3.If(fi(kk) >= 0, fi(kk), fi(kk) + I(n))

    holder = {}

    if conc(m) and m <= 8:
        # a fixed number of entries: the entry that wins is the last one that hits
        def inv8(i):
            out = z3.IntVal(0)
            for q in range(int(m)):
                out = z3.If(z3.simplify(fn(z3.IntVal(q)) == i), z3.IntVal(q), out)
            return z3.simplify(out)

        return Ax("fancy", m, fn, cond=lambda i: z3.simplify(z3.Or([fn(z3.IntVal(q)) == i for q in range(int(m))])), inv=inv8)

    def ensure_inv():
        if "inv" in holder:
            return
        F = c.fresh_fun("lastidx", INT, INT)
        q = c.fresh_var("q")
        b = fn(q)
        c.axiom(
            z3.ForAll([q], z3.Implies(in_range(q, m), z3.And(F(b) >= q, F(b) < I(m), fn(F(b)) == b)))
        )
        holder["inv"] = F

    def cond(i):
        ensure_inv()
        k_ = holder["inv"](i)
        return z3.And(k_ >= 0, k_ < I(m), fn(k_) == i)

    def inv(i):
        ensure_inv()
        return holder["inv"](i)

    return Ax("fancy", m, fn, cond=cond, inv=inv)


def _parse_index(a, index):
    if not isinstance(index, tuple):
        index = (index,)
    index = list(index)
    # 2-d boolean mask
    n_used = 0
    for x in index:
        if x is None:
            continue
        if x is Ellipsis:
            continue
        n_used += 1
    if Ellipsis in [x for x in index if x is Ellipsis]:
        pos = [i for i, x in enumerate(index) if x is Ellipsis][0]
        index[pos : pos + 1] = [slice(None)] * (a.ndim - n_used)
    else:
        index += [slice(None)] * (a.ndim - n_used)
    axes, d = [], 0
    for x in index:
        if x is None:
            axes.append(Ax("new", 1))
            continue
        if d >= a.ndim:
            raise IndexError("too many indices for array")
        n = a._shape[d]
        d += 1
        if isinstance(x, slice):
            st, ln, step = slice_range(x, n)
            if step == 1:
                axes.append(
                    Ax(
                        "slice", ln, (lambda st: lambda k: k if z3.is_int_value(st) and st.as_long() == 0 else st + k)(st),
                        cond=(lambda st, ln, full: lambda i: None if full else z3.And(i >= st, i < st + I(ln)))(
                            st, ln, x.start is None and x.stop is None
                        ),
                        inv=(lambda st: lambda i: i if z3.is_int_value(st) and st.as_long() == 0 else i - st)(st),
                    )
                )
            else:
                axes.append(Ax("slice", ln, lambda k, st=st: st - k, cond=lambda i: None, inv=lambda i, st=st: st - i))
        elif _is_intlike(x):
            k = norm_index(x, n)
            axes.append(Ax("int", None, k))
        elif isinstance(x, (list, tuple, _np.ndarray, SymSeq, builtins.range)) or is_symarray(x):
            if isinstance(x, _np.ndarray) and x.shape == ():
                axes.append(Ax("int", None, norm_index(x.item(), n)))
            elif is_symarray(x) and x.ndim == 0:
                axes.append(Ax("int", None, norm_index(wrap(x._at()), n)))
            else:
                axes.append(_fancy(x, n))
        elif isinstance(x, (str, float)):
            raise IndexError("only integers, slices (`:`), ... are valid indices")
        else:
            raise Unsupported(f"index {type(x).__name__}")
    return axes


def _mask2d(a, index):
    if isinstance(index, tuple):
        return None
    if isinstance(index, _np.ndarray) and index.dtype == bool and index.ndim > 1:
        index = to_symarray(index)
    if is_symarray(index) and index.kind == "b" and index.ndim == a.ndim and a.ndim > 1:
        return index
    return None


def _gather2d(mask, shape):
    """selection of a 2-d mask, flattened row-major"""
    c = ctx()
    f = mask._snapshot()
    p, q = z3.Int("probe!m0"), z3.Int("probe!m1")
    body = z3.simplify(f(p, q))
    key = ("2d", body.get_id(), I(shape[0]).get_id(), I(shape[1]).get_id(), tuple(v.get_id() for v, _ in c.bound))
    memo = c.__dict__.setdefault("_masks", {})
    if key in memo:
        ent = memo[key]
        for ax in ent[5]:
            c.axiom(ax)
        return ent[:4]
    c._keep.append(body)
    m = c.fresh_int("cnt2")
    bv = [v for v, _ in c.bound]
    bs = [v.sort() for v in bv]
    s0 = z3.Function(c.name("selr"), *bs, INT, INT)
    s1 = z3.Function(c.name("selc"), *bs, INT, INT)
    rk = z3.Function(c.name("rank2"), *bs, INT, INT, INT)
    k = z3.Int(f"mk{c.nfresh}")
    i, j = z3.Ints(f"mi{c.nfresh} mj{c.nfresh}")
    a0, a1 = s0(*bv, k), s1(*bv, k)
    r0 = rk(*bv, i, j)
    axs = [
        m >= 0,
        z3.ForAll(
            [k],
            z3.Implies(
                z3.And(k >= 0, k < m),
                z3.And(in_range(a0, shape[0]), in_range(a1, shape[1]), f(a0, a1), rk(*bv, a0, a1) == k),
            ),
            patterns=[a0],
        ),
        z3.ForAll(
            [i, j],
            z3.Implies(
                z3.And(in_range(i, shape[0]), in_range(j, shape[1]), f(i, j)),
                z3.And(r0 >= 0, r0 < m, s0(*bv, r0) == i, s1(*bv, r0) == j),
            ),
            patterns=[r0],
        ),
    ]
    for ax in axs:
        c.axiom(ax)

    def S0(x):
        if z3.is_app(x) and x.decl().eq(rk):
            return x.arg(x.num_args() - 2)
        return s0(*bv, x)

    def S1(x):
        if z3.is_app(x) and x.decl().eq(rk):
            return x.arg(x.num_args() - 1)
        return s1(*bv, x)

    ent = (SymNum(m), S0, S1, lambda x, y: rk(*bv, x, y), body, axs)
    memo[key] = ent
    return ent[:4]


def _getitem(a, index):
    m2 = _mask2d(a, index)
    if m2 is not None:
        if a.ndim != 2:
            raise Unsupported("nd mask")
        for x, y in zip(m2._shape, a._shape):
            if not decide_eq(x, y):
                raise IndexError("boolean index did not match")
        m, s0, s1, rk = _gather2d(m2, a._shape)
        f = a._snapshot()
        return SymArray._make((m,), lambda k: f(s0(k), s1(k)), a.kind)
    axes = _parse_index(a, index)
    if all(x.kind == "int" for x in axes):
        e = a._at(*[x.f for x in axes])
        return wrap(e)
    nf = [x for x in axes if x.kind == "fancy"]
    if len(nf) > 1:
        if len(axes) == 2 and all(x.kind == "fancy" for x in axes):
            if not decide_eq(axes[0].n, axes[1].n):
                raise IndexError("shape mismatch: indexing arrays could not be broadcast")
            f = a._snapshot()
            f0, f1 = axes[0].f, axes[1].f
            return a._derive(SymArray._make((axes[0].n,), lambda k: f(f0(k), f1(k)), a.kind))
        raise Unsupported("several fancy indices")
    shape = tuple(x.n for x in axes if x.kind != "int")

    def vmap(*ix):
        out, p = [], 0
        for x in axes:
            if x.kind == "int":
                out.append(x.f)
            elif x.kind == "new":
                p += 1
            else:
                out.append(x.f(ix[p]))
                p += 1
        return tuple(out)

    if nf:
        f = a._snapshot()
        r = SymArray._make(shape, lambda *ix: f(*vmap(*ix)), a.kind)
        if a.ndim == 1 and a._gather is None and a.kind == "i" and getattr(a, "_is_arange", False):
            x = nf[0]
            r.__dict__["_gather"] = (x.n, x.f, x.inv, x.cond, a._shape[0])
        return a._derive(r)

    vm0, vi0 = a._vmap, a._vinv

    def inv(*bix):
        c0, ix = (None, bix) if vi0 is None else vi0(*bix)
        conds, out, d = ([c0] if c0 is not None else []), [], 0
        for x in axes:
            if x.kind == "new":
                out.append(z3.IntVal(0))
                continue
            i = ix[d]
            d += 1
            if x.kind == "int":
                conds.append(i == x.f)
            else:
                c = x.cond(i)
                if c is not None:
                    conds.append(c)
                out.append(x.inv(i))
        return (z3.And(*conds) if conds else None), tuple(out)

    full = (lambda *ix: vm0(*vmap(*ix))) if vm0 is not None else vmap
    r = SymArray._new(shape, a._store, full, inv)
    return a._derive(r)


def _setitem(a, index, value):
    m2 = _mask2d(a, index)
    if m2 is not None:
        f = m2._snapshot()
        v = to_symarray(value)
        if v.ndim == 0:
            e = v._at()
            a._write(lambda i, j: (f(i, j), e))
            return
        m, s0, s1, rk = _gather2d(m2, a._shape)
        if not decide_eq(v._shape[0], m):
            raise ValueError("NumPy boolean array indexing assignment cannot assign")
        g = v._snapshot()
        a._write(lambda i, j: (f(i, j), g(rk(i, j))))
        return
    axes = _parse_index(a, index)
    nf = [x for x in axes if x.kind == "fancy"]
    if len(nf) > 1:
        if len(axes) == 2 and len(nf) == 2 and all(conc(x.n) for x in nf) and nf[0].n == nf[1].n <= 64:
            # pairs of positions, written one after the other
            g = _bcast_to(value, (nf[0].n,))
            for q in range(int(nf[0].n)):
                k = z3.IntVal(q)
                p0, p1, e = nf[0].f(k), nf[1].f(k), g(k)
                a._write(lambda i, j, p0=p0, p1=p1, e=e: (z3.And(i == p0, j == p1), e))
            return
        raise Unsupported("assignment with several fancy indices")
    shape = tuple(x.n for x in axes if x.kind != "int")
    if isinstance(value, (list, tuple)) and len(shape) == 0:
        # an object cell receiving a sequence: opaque
        value = core.wrap(core.intern_const(tuple(value))) if not any(is_sym(v) for v in value) else value
    g = _bcast_to(value, shape)

    def upd(*ix):
        conds, out, d = [], [], 0
        for x in axes:
            if x.kind == "new":
                out.append(z3.IntVal(0))
                continue
            i = ix[d]
            d += 1
            if x.kind == "int":
                conds.append(i == x.f)
            else:
                c = x.cond(i)
                if c is not None:
                    conds.append(c)
                out.append(x.inv(i))
        return (z3.And(*conds) if conds else None), g(*out)

    a._write(upd)


def _row_view(a):
    """a (1, c) array as a (c,) view, when it is a contiguous row of what it is a view of"""
    if a._vmap is not None:
        i = ctx().fresh_var("col")
        ix = [z3.simplify(x) for x in a._vmap(z3.IntVal(0), i)]
        if not (ix and ix[-1].eq(i) and not any(_mentions(x, i) for x in ix[:-1])):
            return None
    vm, vi = a._vmap, a._vinv
    m2 = (lambda i: (z3.IntVal(0), i)) if vm is None else (lambda i: vm(z3.IntVal(0), i))

    def inv(*ix):
        c, q = (None, ix) if vi is None else vi(*ix)
        return c, (q[1],)

    return SymArray._new((a._shape[1],), a._store, m2, inv)


def _mentions(e, x):
    todo = [e]
    while todo:
        t = todo.pop()
        if t.eq(x):
            return True
        todo += t.children()
    return False


def _reshape(a, shape):
    r = _reshape_(a, shape)
    if r is not a and r._store is not a._store:
        r._store.alias = True  # numpy may give a view here: writes are not tracked
    return r


def _reshape_(a, shape):
    shape = tuple(shape)
    f = a._snapshot()
    if len(shape) == 1 and a.ndim == 2 and conc(a._shape[0]) and a._shape[0] == 1 and conc(shape[0]) and shape[0] == -1:
        r = _row_view(a)
        if r is not None:
            return r
    if a.ndim == 1 and len(shape) == 2 and (conc(shape[0]) and shape[0] == 1 and conc(shape[1]) and shape[1] == -1 or conc(shape[1]) and shape[1] == 1 and conc(shape[0]) and shape[0] == -1):
        vm, vi, col = a._vmap, a._vinv, conc(shape[1]) and shape[1] == 1
        p = (lambda i, j: i) if col else (lambda i, j: j)

        def inv(*ix):
            c, q = (None, ix) if vi is None else vi(*ix)
            return c, ((q[0], z3.IntVal(0)) if col else (z3.IntVal(0), q[0]))

        n = a._shape[0]
        return SymArray._new((n, 1) if col else (1, n), a._store, (lambda i, j: (p(i, j),)) if vm is None else (lambda i, j: vm(p(i, j))), inv)
    if a.ndim == 2 and len(shape) == 1 and conc(shape[0]) and shape[0] == -1 and a._vmap is None and conc(a._shape[1]) and a._shape[1] == 1:
        return SymArray._new((a._shape[0],), a._store, lambda i: (i, z3.IntVal(0)), lambda i, j: (None, (i,)))
    if len(shape) == 1:
        n = shape[0]
        if a.ndim == 1:
            return a if conc(n) and n == -1 or decide_eq(n, a._shape[0]) else _bad_reshape()
        if a.ndim == 0:
            return SymArray._make((1,), lambda i: f(), a.kind)
        if a.ndim == 2:
            r, c = a._shape
            if conc(c) and c == 1:
                return SymArray._new((r,), a._store, _comp(a._vmap, lambda i: (i, z3.IntVal(0))), None) if False else SymArray._make((r,), lambda i: f(i, z3.IntVal(0)), a.kind)
            if conc(r) and r == 1:
                return SymArray._make((c,), lambda i: f(z3.IntVal(0), i), a.kind)
            if conc(c):
                return SymArray._make((L(I(r) * c),), lambda i: f(i / c, i % c), a.kind)
            C = I(c)
            tot = L(I(r) * C)
            if conc(r):
                # i in [0, r*C): row by comparison
                def el(i):
                    v = f(z3.IntVal(r - 1), i - (r - 1) * C)
                    for k in range(r - 2, -1, -1):
                        v = z3.If(i < (k + 1) * C, f(z3.IntVal(k), i - k * C), v)
                    return v

                return SymArray._make((tot,), el, a.kind)
            res = SymArray._make((tot,), lambda i: f(i / C, i % C), a.kind)
            res.__dict__["_flat_of"] = (f, a._shape, a.kind)
            return res
    if len(shape) == 2:
        r, c = shape
        if a.ndim == 1:
            n = a._shape[0]
            if conc(r) and r == 1:
                return SymArray._make((1, n), lambda i, j: f(j), a.kind)
            if conc(c) and c == 1:
                return SymArray._make((n, 1), lambda i, j: f(i), a.kind)
            if conc(c) and c == -1:
                fo = getattr(a, "_flat_of", None)
                if fo is not None and same(fo[1][0], r):
                    return SymArray._make(fo[1], fo[0], fo[2])
                # n must be a multiple of r
                if same(n, r):
                    return SymArray._make((r, 1), lambda i, j: f(i), a.kind)
                c2 = ctx().fresh_int("cols")
                if ctx().decide(I(n) == I(r)):
                    return SymArray._make((r, 1), lambda i, j: f(i), a.kind)
                raise Unsupported("reshape 1d->2d")
            if not conc(r) or not conc(c):
                fo = getattr(a, "_flat_of", None)
                if fo is not None and same(fo[1][0], r) and same(fo[1][1], c):
                    return SymArray._make(fo[1], fo[0], fo[2])
        if a.ndim == 2:
            R, C = a._shape
            if conc(r) and r == -1 and decide_eq(c, C):
                return a
            if (conc(c) and c == -1) and same(r, R):
                return a
            if same(r, R) and same(c, C):
                return a
            if conc(R) and R == 1 and conc(r) and r == -1 and conc(c) and c == 1:
                return SymArray._make((C, 1), lambda i, j: f(z3.IntVal(0), i), a.kind)
            if conc(R) and R == 1 and conc(c) and c in (-1, 1):
                # (1, n) -> (r, -1)
                if decide_eq(r, C):
                    vm, vi = a._vmap, a._vinv

                    def inv(*ix):
                        c0, q = (None, ix) if vi is None else vi(*ix)
                        return c0, (q[1], z3.IntVal(0))

                    return SymArray._new((C, 1), a._store, (lambda i, j: (z3.IntVal(0), i)) if vm is None else (lambda i, j: vm(z3.IntVal(0), i)), inv)
            if conc(C) and C == 1 and conc(r) and r == 1:
                return SymArray._make((1, R), lambda i, j: f(j, z3.IntVal(0)), a.kind)
            if not conc(r) and conc(c) and c == -1 and decide_eq(r, R):
                return a
        if a.ndim == 0:
            return SymArray._make((1, 1), lambda i, j: f(), a.kind)
    raise Unsupported(f"reshape {a.ndim}d -> {len(shape)}d")


def _bad_reshape():
    raise ValueError("cannot reshape array")


def _comp(vm, g):
    return (lambda *ix: vm(*g(*ix))) if vm is not None else g


# ---------------------------------------------------------------- reductions
def _norm_axis(a, axis):
    if axis is None:
        return None
    if isinstance(axis, (tuple, list)):
        raise Unsupported("tuple axis")
    return axis if axis >= 0 else a.ndim + axis


def _reduce(a, axis, red):
    """red(n, body: z3 Int -> z3) -> z3"""
    a = to_symarray(a)
    axis = _norm_axis(a, axis)
    f = a._snapshot()
    if a.ndim == 0:
        return wrap(red(1, lambda k: f()))
    if axis is None:
        if a.ndim == 1:
            return wrap(red(a._shape[0], f))
        if a.ndim == 2:
            R, C = a._shape
            return wrap(red(R, lambda i: red(C, lambda j: f(i, j))))
        raise Unsupported("reduction rank")
    n = a._shape[axis]
    rest = a._shape[:axis] + a._shape[axis + 1 :]
    if not rest:
        return wrap(red(n, f))

    def el(*ix):
        return red(n, lambda k: f(*ix[:axis], k, *ix[axis:]))

    p = [ctx().fresh_var("p") for _ in rest]
    # evaluate once under bound variables so that fresh symbols become functions of the index
    t = ctx_probe(lambda: el(*p), p, rest)
    return SymArray._make(rest, lambda *ix: z3.substitute(t, *[(a_, I(b_)) for a_, b_ in zip(p, ix)]), kind_of(t))


def _q_red(quant):
    def red(n, body):
        c = ctx()
        k = c.fresh_var("q")
        if conc(n) and n <= 8:
            vals = [to_bool(body(z3.IntVal(i))) for i in range(n)]
            return (z3.And if quant == "all" else z3.Or)(*vals) if vals else z3.BoolVal(quant == "all")
        b = c.quantify(k, in_range(k, n), lambda: to_bool(body(k)))
        if quant == "all":
            return z3.ForAll([k], z3.Implies(in_range(k, n), b))
        return z3.Exists([k], z3.And(in_range(k, n), b))

    return red


def _all(a, axis=None):
    return _reduce(a, axis, _q_red("all"))


def _any(a, axis=None):
    return _reduce(a, axis, _q_red("any"))


def _prod_red(n, body):
    if not conc(n) or n > 8:
        raise Unsupported("product of an unknown number of values")
    r = z3.RealVal(1)
    for i in range(n):
        a, b = num_pair(r, body(z3.IntVal(i)))
        r = a * b if i else b
    return r


def sum_term(n, body):
    c = ctx()
    if conc(n) and n <= 8:
        if n == 0:
            return z3.RealVal(0)
        r = core._num(body(z3.IntVal(0)))
        for i in range(1, n):
            a, b = num_pair(r, body(z3.IntVal(i)))
            r = a + b
        return r
    k = c.fresh_var("q")
    b = c.quantify(k, in_range(k, n), lambda: body(k))
    if b.sort() == BOOL:
        # counting
        m, s, r = mask_gather(lambda i: z3.substitute(b, (k, i)), n)
        return I(m)
    b = core._num(b)
    isint = b.sort() == INT
    bvs = [v for v, _ in c.bound]
    # canonical form of the summand: bound variables renamed by position
    can = [z3.Int(f"canon!{i}") for i in range(len(bvs))]
    kk = z3.Int("canon!k")
    cb = z3.simplify(z3.substitute(b, (k, kk), *zip(bvs, can)))
    cn = z3.simplify(z3.substitute(I(n), *zip(bvs, can))) if bvs else z3.simplify(I(n))
    for ent in c.sums:
        if ent["cb"].eq(cb) and ent["cn"].eq(cn) and ent["nb"] == len(bvs):
            for ax in ent["axs"]:
                c.axiom(ax)
            return ent["S"](*bvs)
    srt = INT if isint else REAL
    if bvs:
        F = z3.Function(c.name("sum"), *([INT] * len(bvs)), srt)
        Sf = lambda *p: F(*p)
    else:
        S0 = z3.Const(c.name("sum"), srt)
        Sf = lambda: S0
    ent = {"cb": cb, "cn": cn, "nb": len(bvs), "S": Sf, "axs": []}

    def inst(e, params, kvar):
        """(n, body(kvar), S) of an entry at given parameters"""
        sub = [(x, y) for x, y in zip([z3.Int(f"canon!{i}") for i in range(e["nb"])], params)]
        return (
            z3.substitute(e["cn"], *sub) if sub else e["cn"],
            z3.substitute(e["cb"], (kk, kvar), *sub),
            e["S"](*params),
        )

    def close(vars_, f, pats):
        return z3.ForAll(vars_, f, patterns=pats) if vars_ else f

    P = [z3.Int(c.name("sp")) for _ in bvs]
    q = z3.Int(c.name("sq"))
    N, body_, S = inst(ent, P, q)
    rng = z3.And(q >= 0, q < N)
    nonneg = z3.ForAll([q], z3.Implies(rng, body_ >= 0))
    zero = z3.ForAll([q], z3.Implies(rng, body_ == 0))
    facts = z3.And(
        z3.Implies(N <= 0, S == 0),
        z3.Implies(nonneg, S >= 0),
        z3.Implies(zero, S == 0),
        z3.Implies(z3.And(nonneg, S == 0), zero),
        z3.Implies(N == 1, S == z3.substitute(body_, (q, z3.IntVal(0)))),
    )
    ent["axs"].append(close(P, facts, [S] if P else None))

    def relate(e1, e2):
        if e1["cb"].sort() != e2["cb"].sort():
            return
        P1 = [z3.Int(c.name("sp")) for _ in range(e1["nb"])]
        P2 = [z3.Int(c.name("sp")) for _ in range(e2["nb"])]
        q = z3.Int(c.name("sq"))
        n1, b1, S1 = inst(e1, P1, q)
        n2, b2, S2 = inst(e2, P2, q)
        rng = z3.And(q >= 0, q < n1)
        f = z3.Implies(
            n1 == n2,
            z3.And(
                z3.Implies(z3.ForAll([q], z3.Implies(rng, b1 <= b2)), S1 <= S2),
                z3.Implies(z3.ForAll([q], z3.Implies(rng, b1 >= b2)), S1 >= S2),
            ),
        )
        vs = P1 + P2
        pats = None
        if vs:
            pats = [z3.MultiPattern(S1, S2)] if P1 and P2 else [S1 if P1 else S2]
        ent["axs"].append(close(vs, f, pats))

    for other in c.sums:
        relate(other, ent)
    if bvs:
        relate(ent, ent)
    c.sums.append(ent)
    for ax in ent["axs"]:
        c.axiom(ax)
    return Sf(*bvs)


def mentions_any(e, vs):
    return any(mentions(e, v) for v in vs)


def _sum(a, axis=None):
    return _reduce(a, axis, sum_term)


def _ext_term(which):
    def red(n, body):
        c = ctx()
        if conc(n):
            if n == 0:
                raise ValueError("zero-size array to reduction operation")
            if n <= 8:
                r = core._num(body(z3.IntVal(0)))
                for i in range(1, n):
                    r = (core.mk_min if which == "min" else core.mk_max)(r, body(z3.IntVal(i)))
                return r
        else:
            if not c.bound and not c._noforks:
                if not c.decide(I(n) > 0):
                    raise ValueError("zero-size array to reduction operation")
        k = c.fresh_var("q")
        b = core._num(c.quantify(k, in_range(k, n), lambda: body(k)))
        probe = z3.Int("probe!ext")
        pb = z3.simplify(z3.substitute(b, (k, probe)))
        memo = c.__dict__.setdefault("_exts", {})
        key = (which, pb.get_id(), I(n).get_id(), tuple(v.get_id() for v, _ in c.bound))
        if key in memo:
            v, axs, _ = memo[key]
        else:
            v = c.fresh_int(which) if b.sort() == INT else c.fresh_real(which)
            j = c.fresh_int("arg" + which)
            axs = [
                z3.Implies(I(n) > 0, z3.And(in_range(j, n), v == z3.substitute(b, (k, j)))),
                z3.ForAll([k], z3.Implies(in_range(k, n), v <= b if which == "min" else v >= b)),
            ]
            memo[key] = (v, axs, j)
            c._keep.append(pb)
        for ax in axs:
            c.axiom(ax)
        return v

    return red


def _extremum(a, axis, which):
    return _reduce(a, axis, _ext_term(which))


def _mean(a, axis=None):
    a = to_symarray(a)
    if axis is None:
        n = a.size
    else:
        n = a._shape[_norm_axis(a, axis)]
    s = _sum(a.astype(float), axis)
    return s / n


def _std(a, axis=None, ddof=0):
    a = to_symarray(a).astype(float)
    m = _mean(a, axis)
    if axis is None:
        d = a - m
        n = a.size
    else:
        ax = _norm_axis(a, axis)
        n = a._shape[ax]
        if ax == 0 or a.ndim == 1:
            d = a - m
        elif ax == a.ndim - 1:
            f, g = a._snapshot(), to_symarray(m)._snapshot()
            d = SymArray._make(a._shape, lambda *ix: f(*ix) - g(*ix[:-1]), "f")
        else:
            raise Unsupported("std axis")
    v = _sum(d * d, axis) / (n - ddof)
    return sqrt(v)


# ---------------------------------------------------------------- numpy functions
def _unary(f):
    def g(x, *a, **k):
        if a or k:
            raise Unsupported("ufunc with out/where")
        r = umap(f, x)
        if is_symarray(x) and type(x) is not SymArray and isinstance(r, SymArray):
            return x._derive(r)
        return r

    return g


def _binary(op):
    def g(a, b, *x, **k):
        if x or k:
            raise Unsupported("ufunc with out/where")
        return broadcast(lambda p, q: elem_op(op, p, q), a, b)

    return g


abs_ = _unary(core.mk_abs)
sqrt = _unary(core.mk_sqrt)


def _decimals(x, d=0):
    return broadcast(lambda a, b: core.mk_round(a, wrap(to_int(b))), x, d)


def clip(a, lo, hi, **k):
    r = a
    if lo is not None:
        r = broadcast(core.mk_max, r, lo)
    if hi is not None:
        r = broadcast(core.mk_min, r, hi)
    return r


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = lift(rtol), lift(atol)

    def f(x, y):
        x, y = to_real(x), to_real(y)
        return core.mk_abs(x - y) <= to_real(at) + to_real(rt) * core.mk_abs(y)

    return broadcast(f, a, b)


def asarray(x, dtype=None, copy=False, ndmin=0):
    k = dtype_kind(dtype)
    if isinstance(x, (SymSeq, Sym)) or is_symarray(x) or has_sym(x):
        a = to_symarray(x)
    else:
        r = _np.array(x, dtype=dtype, copy=copy)
        if isinstance(x, _np.ndarray) and not copy and k != "O":
            return r
        if r.dtype.kind in "Ubi" and r.size:
            return r  # names, masks and index lists stay concrete
        try:
            return to_symarray(r)
        except (Unsupported, KeyError):
            return r
    if k is not None and k != a.kind:
        a = SymArray.astype(a.view() if type(a) is not SymArray else a, k)
    elif copy:
        a = SymArray._make(a._shape, a._snapshot(), a.kind)
    elif type(a) is not SymArray:
        a = a.view()
    return a


def array(x, dtype=None, copy=True, ndmin=0):
    return asarray(x, dtype, copy)


def has_sym(x, depth=0):
    if is_sym(x):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 3:
        return any(has_sym(y, depth + 1) for y in x.values())
    return False


def atleast_1d(x):
    a = to_symarray(x)
    if a.ndim == 0:
        f = a._snapshot()
        return SymArray._make((1,), lambda i: f(), a.kind)
    return x if is_symarray(x) else a


def atleast_2d(x):
    a = to_symarray(x)
    if a.ndim == 0:
        f = a._snapshot()
        return SymArray._make((1, 1), lambda i, j: f(), a.kind)
    if a.ndim == 1:
        return a[None, :]
    return x if is_symarray(x) else a


def atleast_3d(x):
    a = to_symarray(x)
    f = a._snapshot()
    if a.ndim == 0:
        return SymArray._make((1, 1, 1), lambda i, j, k: f(), a.kind)
    if a.ndim == 1:
        return SymArray._make((1, a.shape[0], 1), lambda i, j, k: f(j), a.kind)
    if a.ndim == 2:
        return SymArray._make((a.shape[0], a.shape[1], 1), lambda i, j, k: f(i, j), a.kind)
    return x if is_symarray(x) else a


def _shape_arg(s):
    if isinstance(s, (tuple, list)):
        return tuple(s)
    return (s,)


def _const(v):
    def g(shape, dtype=None, **k):
        kind = dtype_kind(dtype) or "f"
        e = {"f": z3.RealVal(v), "i": z3.IntVal(v), "b": z3.BoolVal(bool(v)), "O": Val.VI(z3.IntVal(v))}[kind]
        return SymArray._make(_shape_arg(shape), lambda *ix: e, kind)

    return g


def empty(shape, dtype=None, **k):
    kind = dtype_kind(dtype) or "f"
    shape = _shape_arg(shape)
    sort = {"f": REAL, "i": INT, "b": BOOL, "O": Val, "U": U}[kind]
    F = ctx().fresh_fun("empty", *([INT] * len(shape)), sort) if shape else None
    if kind == "O":
        return SymArray._make(shape, lambda *ix: Val.VN, kind)
    return SymArray._make(shape, lambda *ix: F(*ix), kind)


def zeros_like(a, dtype=None, **k):
    a = to_symarray(a)
    return _const(0)(a._shape, dtype or a.kind)


def full(shape, v, dtype=None, **k):
    e = lift(v)
    kind = dtype_kind(dtype) or kind_of(e)
    e = coerce(e, kind)
    return SymArray._make(_shape_arg(shape), lambda *ix: e, kind)


def full_like(a, v, dtype=None, **k):
    a = to_symarray(a)
    return full(a._shape, v, dtype or a.kind)


def arange(a, b=None, step=1, dtype=None):
    if step != 1:
        raise Unsupported("arange step")
    lo, hi = (0, a) if b is None else (a, b)
    n = hi if conc(lo) and lo == 0 else hi - lo
    if isinstance(n, SymNum):
        n = L(z3.If(n.e > 0, n.e, 0)) if ctx()._check(n.e < 0, 1000) != z3.unsat else n
    base = I(lo)
    z = conc(lo) and lo == 0
    r = SymArray._make((n,), (lambda i: i) if z else (lambda i: base + i), "i")
    if z:
        r.__dict__["_is_arange"] = True
    return r


def eye(n, **k):
    return SymArray._make((n, n), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), "f")


def nonzero(a):
    a = to_symarray(a)
    f = a._snapshot()
    if a.ndim == 1:
        M = lambda i: to_bool(f(i))
        m, s, r = mask_gather(M, a._shape[0])
        out = SymArray._make((m,), s, "i")
        out.__dict__["_gather"] = (m, s, r, M, a._shape[0])
        return (out,)
    if a.ndim == 2:
        b = a if a.kind == "b" else umap(to_bool, a)
        m, s0, s1, rk = _gather2d(b, a._shape)
        return (SymArray._make((m,), s0, "i"), SymArray._make((m,), s1, "i"))
    raise Unsupported("nonzero rank")


def where(c, x=None, y=None):
    if x is None and y is None:
        return nonzero(c)

    def f(a, b, d):
        b, d = unify(b, d)
        return z3.If(to_bool(a), b, d)

    return broadcast(f, c, x, y)


def _perm(n, keyfn, c):
    """a sorting permutation: pi and its inverse"""
    P = c.fresh_fun("perm", INT, INT)
    Q = c.fresh_fun("permi", INT, INT)
    k, l = c.fresh_var("k"), c.fresh_var("l")
    rng = in_range(k, n)
    c.axiom(z3.ForAll([k], z3.Implies(rng, z3.And(in_range(P(k), n), Q(P(k)) == k))))
    c.axiom(z3.ForAll([k], z3.Implies(rng, z3.And(in_range(Q(k), n), P(Q(k)) == k))))
    c.axiom(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < I(n)), keyfn(P(k)) <= keyfn(P(l)))))
    c.__dict__.setdefault("_rankfns", []).append(Q)
    return P


def argsort(a, axis=-1, **kw):
    a = to_symarray(a)
    if a.ndim != 1:
        raise Unsupported("argsort rank")
    f = a._snapshot()
    P = _perm(a._shape[0], lambda i: core._num(f(i)), ctx())
    return SymArray._make(a._shape, lambda i: P(i), "i")


def lexsort(keys, axis=-1):
    """the last key is the primary one; ties keep their order"""
    ks = [to_symarray(k) for k in (keys if isinstance(keys, (list, tuple)) else list(keys))]
    n, c = ks[0]._shape[0], ctx()
    if any(k.ndim != 1 for k in ks):
        raise Unsupported("lexsort rank")
    fs = [k._snapshot() for k in reversed(ks)]
    P, Q = c.fresh_fun("perm", INT, INT), c.fresh_fun("permi", INT, INT)
    k, l = c.fresh_var("k"), c.fresh_var("l")
    rng = in_range(k, n)
    c.axiom(z3.ForAll([k], z3.Implies(rng, z3.And(in_range(P(k), n), Q(P(k)) == k)), patterns=[P(k)]))
    c.axiom(z3.ForAll([k], z3.Implies(rng, z3.And(in_range(Q(k), n), P(Q(k)) == k)), patterns=[Q(k)]))

    def le(i, j, fs):
        if not fs:
            return i < j
        a, b = core._num(fs[0](i)), core._num(fs[0](j))
        return z3.Or(a < b, z3.And(a == b, le(i, j, fs[1:])))

    c.axiom(z3.ForAll([k, l], z3.Implies(z3.And(k >= 0, k < l, l < I(n)), le(P(k), P(l), fs)), patterns=[z3.MultiPattern(P(k), P(l))]))
    c.__dict__.setdefault("_perms", []).append((P, Q))
    return SymArray._make((n,), lambda i: P(i), "i")


def sort(a, **k):
    i = argsort(a)
    return to_symarray(a)[i]


def argmax_(a, which="max"):
    a = to_symarray(a)
    if a.ndim != 1:
        raise Unsupported("argmax rank")
    c = ctx()
    f = a._snapshot()
    n = a._shape[0]
    if not c.decide(I(n) > 0):
        raise ValueError("attempt to get argmax of an empty sequence")
    j, k = c.fresh_int("argx"), c.fresh_var("k")
    c.axiom(in_range(j, n))
    v = core._num(f(j))
    b = core._num(c.quantify(k, in_range(k, n), lambda: f(k)))
    c.axiom(z3.ForAll([k], z3.Implies(in_range(k, n), v >= b if which == "max" else v <= b)))
    c.axiom(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < j), v > b if which == "max" else v < b)))
    return SymNum(j)


def delete(a, obj, axis=None):
    """np.delete of constant positions along an axis of constant length"""
    a = to_symarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("np.delete without axis")
        axis = 0
    axis = _norm_axis(a, axis)
    n = a.shape[axis]
    if not conc(n) or has_sym(obj):
        raise Unsupported("np.delete with symbolic positions")
    keep = _np.delete(_np.arange(n), _np.asarray(obj, dtype=int) if not isinstance(obj, slice) else obj).tolist()
    return _getitem(a, tuple([slice(None)] * axis + [keep]))


def concatenate(arrs, axis=0, **k):
    if isinstance(arrs, SymSeq) and not conc(arrs.n):
        # a symbolic number of one-dimensional pieces of one concrete length
        if not ctx().decide(I(arrs.n) > 0):
            raise ValueError("need at least one array to concatenate")
        t = to_symarray(arrs.at(z3.Int(ctx().name("piece"))))
        if t.ndim != 1 or not conc(t._shape[0]) or t._shape[0] < 1 or axis != 0:
            raise Unsupported("concatenate of a symbolic number of arrays")
        m, seq = t._shape[0], arrs
        el = seq._elem
        return SymArray._make((L(I(seq.n) * m),), (lambda i: to_symarray(el(i))._at(0)) if m == 1 else (lambda i: to_symarray(el(i / m))._at(i % m)), t.kind)
    arrs = [to_symarray(a) for a in (list(arrs) if not isinstance(arrs, SymSeq) else list(iter(arrs)))]
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    arrs = [a for a in arrs if not (a.ndim == 1 and conc(a._shape[0]) and a._shape[0] == 0)] or arrs[:1]
    kind = arrs[0].kind
    for a in arrs[1:]:
        kind = common_kind(kind, a.kind)
    fs = [a._snapshot() for a in arrs]
    ns = [I(a._shape[axis]) for a in arrs]
    tot = ns[0]
    for n in ns[1:]:
        tot = tot + n

    def el(*ix):
        i = ix[axis]
        offs = [z3.IntVal(0)]
        for n in ns[:-1]:
            offs.append(z3.simplify(offs[-1] + n))
        v = conv(fs[-1](*ix[:axis], i - offs[-1], *ix[axis + 1 :]), kind)
        for j in range(len(fs) - 2, -1, -1):
            v = z3.If(i < offs[j] + ns[j], conv(fs[j](*ix[:axis], i - offs[j], *ix[axis + 1 :]), kind), v)
        return v

    shape = list(arrs[0]._shape)
    shape[axis] = L(z3.simplify(tot))
    return SymArray._make(tuple(shape), el, kind)


class _RClass:
    def __getitem__(self, args):
        args = args if isinstance(args, tuple) else (args,)
        if not has_sym(args):
            return _np.r_[args]
        return concatenate([atleast_1d(a) for a in args])


class _CClass:
    def __getitem__(self, args):
        args = args if isinstance(args, tuple) else (args,)
        if not has_sym(args):
            return _np.c_[args]
        cols = []
        for a in args:
            a = to_symarray(a)
            cols.append(a[:, None] if a.ndim == 1 else a)
        return concatenate(cols, axis=1)


def tile(a, reps):
    a = to_symarray(a)
    f = a._snapshot()
    if isinstance(reps, tuple) and len(reps) == 2 and conc(reps[1]) and reps[1] == 1 and a.ndim == 1:
        return SymArray._make((reps[0], a._shape[0]), lambda i, j: f(j), a.kind)
    raise Unsupported("tile")


def repeat(a, n, axis=None):
    a = to_symarray(a)
    f = a._snapshot()
    if a.ndim == 0:
        return SymArray._make((n,), lambda i: f(), a.kind)
    if a.ndim == 1 and conc(a._shape[0]) and a._shape[0] == 1:
        return SymArray._make((n,), lambda i: f(z3.IntVal(0)), a.kind)
    raise Unsupported("repeat")


def dot(a, b):
    a, b = to_symarray(a), to_symarray(b)
    fa, fb = a._snapshot(), b._snapshot()
    if a.ndim == 1 and b.ndim == 1:
        return wrap(sum_term(a._shape[0], lambda k: core._nary("*", fa(k), fb(k))))
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim > 3 or b.ndim > 2:
        raise Unsupported("matrix product")
    n, q = a._shape[-1], b._shape[0]
    if not decide_eq(n, q):
        raise ValueError(f"shapes not aligned: {n} and {q}")
    mul = lambda x, y: core._nary("*", x, y)
    if a.ndim == 3:
        if b.ndim == 1:
            return SymArray._make(a._shape[:2], lambda h, i: sum_term(n, lambda k: mul(fa(h, i, k), fb(k))), "f")
        return SymArray._make(a._shape[:2] + (b._shape[1],), lambda h, i, j: sum_term(n, lambda k: mul(fa(h, i, k), fb(k, j))), "f")
    if a.ndim == 1:
        return SymArray._make((b._shape[1],), lambda j: sum_term(n, lambda k: mul(fa(k), fb(k, j))), "f")
    if b.ndim == 1:
        return SymArray._make((a._shape[0],), lambda i: sum_term(n, lambda k: mul(fa(i, k), fb(k))), "f")
    return SymArray._make((a._shape[0], b._shape[1]), lambda i, j: sum_term(n, lambda k: mul(fa(i, k), fb(k, j))), "f")


def squeeze(a):
    a = to_symarray(a)
    raise Unsupported("squeeze")


def isreal(a):
    a = to_symarray(a)
    return SymArray._make(a._shape, lambda *ix: z3.BoolVal(True), "b")


def _isfinite(e):
    return z3.BoolVal(True) if e.sort() != REAL and e.sort() != Val else core.IsFin(to_real(e))


def _isnan(e):
    return z3.BoolVal(False) if e.sort() not in (REAL, Val) else core.IsNan(to_real(e))


def _isinf(e):
    if getattr(core.ctx(), "all_finite", False):
        return z3.BoolVal(False)
    if e.sort() not in (REAL, Val):
        return z3.BoolVal(False)
    r = to_real(e)
    return z3.And(z3.Not(core.IsFin(r)), z3.Not(core.IsNan(r)))


def power(a, b):
    return broadcast(core.mk_pow_any if hasattr(core, "mk_pow_any") else (lambda x, y: core.elem_op("**", x, y)), a, b)


TABLE = {
    "array": array, "asarray": asarray, "atleast_1d": atleast_1d, "atleast_2d": atleast_2d, "atleast_3d": atleast_3d,
    "abs": abs_, "absolute": abs_, "fabs": abs_, "sqrt": sqrt, "exp": _unary(core.mk_exp), "log": _unary(core.mk_log),
    "log10": _unary(lambda x: core.mk_log(x) / core.mk_log(z3.RealVal(10))),
    "sign": _unary(core.mk_sign), "floor": _unary(core.mk_floor), "ceil": _unary(core.mk_ceil),
    "trunc": _unary(lambda x: z3.If(to_real(x) >= 0, core.mk_floor(x), core.mk_ceil(x))), "fix": _unary(lambda x: z3.If(to_real(x) >= 0, core.mk_floor(x), core.mk_ceil(x))),
    "rint": _unary(core.mk_rint),
    "negative": _unary(lambda x: -core._num(x)), "square": _unary(lambda x: core._num(x) * core._num(x)),
    "isfinite": _unary(_isfinite), "isnan": _unary(_isnan), "isinf": _unary(_isinf), "isreal": isreal,
    "logical_not": _unary(lambda x: z3.Not(to_bool(x))), "bitwise_not": _unary(z3.Not), "invert": _unary(z3.Not),
    "mod": _binary("%"), "remainder": _binary("%"), "power": power, "add": _binary("+"), "subtract": _binary("-"),
    "multiply": _binary("*"), "divide": _binary("/"), "true_divide": _binary("/"),
    "bitwise_and": _binary("&"), "bitwise_or": _binary("|"), "logical_and": _binary("&"), "logical_or": _binary("|"),
    "minimum": lambda a, b: broadcast(core.mk_min, a, b), "maximum": lambda a, b: broadcast(core.mk_max, a, b),
    "less": _binary("<"), "less_equal": _binary("<="), "greater": _binary(">"), "greater_equal": _binary(">="),
    "equal": _binary("=="), "not_equal": _binary("!="),
    "round": _decimals, "around": _decimals, "clip": clip, "isclose": isclose,
    "zeros": _const(0), "ones": _const(1), "empty": empty, "full": full, "full_like": full_like,
    "zeros_like": zeros_like, "ones_like": lambda a, dtype=None, **k: _const(1)(to_symarray(a)._shape, dtype or to_symarray(a).kind),
    "empty_like": zeros_like, "arange": arange, "eye": eye, "identity": eye,
    "nonzero": nonzero, "flatnonzero": lambda a: nonzero(a)[0], "where": where, "argsort": argsort, "sort": sort,
    "argmax": lambda a, axis=None: argmax_(a, "max"), "argmin": lambda a, axis=None: argmax_(a, "min"),
    "all": lambda a, axis=None: _all(a, axis), "any": lambda a, axis=None: _any(a, axis),
    "sum": lambda a, axis=None: _sum(a, axis), "prod": lambda a, axis=None: _reduce(a, axis, _prod_red), "min": lambda a, axis=None: _extremum(a, axis, "min"),
    "max": lambda a, axis=None: _extremum(a, axis, "max"), "amin": lambda a, axis=None: _extremum(a, axis, "min"),
    "amax": lambda a, axis=None: _extremum(a, axis, "max"), "mean": _mean, "std": _std,
    "count_nonzero": lambda a: _sum(umap(to_bool, a)),
    "concatenate": concatenate, "delete": delete, "hstack": lambda a: concatenate(a, axis=0 if to_symarray(a[0]).ndim == 1 else 1),
    "vstack": lambda a: concatenate([atleast_2d(x) for x in a], axis=0), "tile": tile, "repeat": repeat, "dot": dot,
    "ravel": lambda a: to_symarray(a).ravel(), "reshape": lambda a, s: to_symarray(a).reshape(s),
    "transpose": lambda a: to_symarray(a).T, "shape": lambda a: to_symarray(a).shape, "ndim": lambda a: to_symarray(a).ndim,
    "copy": lambda a: to_symarray(a).copy(), "lexsort": lexsort, "isscalar": lambda a: isinstance(a, Sym), "size": lambda a: to_symarray(a).size,
    "float64": lambda x: wrap(to_real(lift(x))), "int_": None,
}
TABLE.pop("int_")
# creation functions are symbolic only when a shape is symbolic
_SHAPED = {"zeros", "ones", "empty", "full", "eye", "arange", "identity"}


class _Proxy:
    """wraps a real callable: symbolic arguments go to the table"""


class ShimModule:
    """`np` of the shadow package"""

    def __init__(self, real, table, sub=None, name="np"):
        self.__dict__["_real"], self.__dict__["_table"], self.__dict__["_sub"] = real, table, sub or {}
        self.__dict__["_name"] = name
        self.__dict__["_cache"] = {}

    def __getattr__(self, n):
        if n in self._sub:
            return self._sub[n]
        if n in self._cache:
            return self._cache[n]
        r = getattr(self._real, n)
        t = self._table.get(n)
        if isinstance(r, type) and t is None:
            out = r
        elif callable(r):
            out = self._wrap(n, r, t)
        else:
            out = r
        self._cache[n] = out
        return out

    def _wrap(self, n, r, t):
        nm = self._name

        def call(*a, **k):
            if core._CTX and (has_sym(a) or has_sym(tuple(k.values()))):
                if t is None:
                    raise Unsupported(f"{nm}.{n} on symbolic values")
                return t(*a, **k)
            if nm == "np" and core._CTX and n in ("asarray", "array", "zeros", "ones", "empty", "full", "zeros_like"):
                return t(*a, **k)
            return r(*a, **k)

        call.__name__ = n
        return call


# ---------------------------------------------------------------- random numbers: any value of the support
class GhostRandom:
    """ghost state of numpy's generator: every draw is a function of (seed, position since the seed, arguments)"""

    def __init__(self, stream):
        self.stream, self.k, self.seeds = stream, 0, []

    def fun(self, base, args, *sorts):
        if ctx().bound:
            raise Unsupported("a draw in a pointwise loop, with a ghost random state")
        st, k = self.stream, self.k
        self.k += 1
        args = [self._const(to_int(lift(a)) if not isinstance(a, z3.ExprRef) else a) for a in args]
        G = z3.Function(f"draw_{base}_{len(args)}_{len(sorts)}", INT, INT, *([INT] * len(args)), *sorts)
        return lambda *ix: G(st, z3.IntVal(k), *args, *ix)

    def _const(self, e):
        """a name for e, so that the draws can be used in patterns"""
        if z3.is_int_value(e) or z3.is_const(e):
            return e
        k = ctx().fresh_int("arg")
        ctx().axiom(k == e)
        return k

    def restart(self, s=None):
        self.seeds.append(s)
        self.stream = ctx().fresh_int("entropy") if s is None else to_int(lift(s))
        self.k = 0


def _draw(base, args, *sorts):
    g = getattr(ctx(), "rng", None)
    return ctx().fresh_fun(base, *sorts) if g is None else g.fun(base, list(args), *sorts)


class SymRandom:
    """numpy.random with symbolic draws: arbitrary values in the support"""

    def _real_arr(self, shape, lo=None, hi=None, strict_hi=True, base="u"):
        c = ctx()
        F = _draw(base, shape, *([INT] * len(shape)), REAL)
        ks = [c.fresh_var("rk") for _ in shape]
        if lo is not None:
            b = F(*ks)
            body = z3.And(b >= lo, b < hi if strict_hi else b <= hi)
            if ks:
                c.axiom(z3.ForAll(ks, body, patterns=[b]))
            else:
                c.axiom(body)
        if not shape:
            return SymNum(F())
        return SymArray._make(shape, lambda *ix: F(*ix), "f")

    def rand(self, *shape):
        if not core._CTX:
            return _np.random.rand(*shape)
        return self._real_arr(shape, 0, 1)

    def random(self, size=None):
        return self.rand(*(() if size is None else _shape_arg(size)))

    random_sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self.rand(*(() if size is None else _shape_arg(size)))
        return (high - low) * u + low

    def randn(self, *shape):
        if not core._CTX:
            return _np.random.randn(*shape)
        return self._real_arr(shape, base="g")

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.randn(*(() if size is None else _shape_arg(size)))

    def randint(self, low, high=None, size=None, **k):
        if not core._CTX:
            return _np.random.randint(low, high, size)
        if high is None:
            low, high = 0, low
        c = ctx()
        if not c.decide(to_int(lift(low)) < to_int(lift(high))):
            raise ValueError("low >= high")
        shape = () if size is None else _shape_arg(size)
        F = _draw("ri", [low, high, *shape], *([INT] * len(shape)), INT)
        ks = [c.fresh_var("rk") for _ in shape]
        b = F(*ks)
        body = z3.And(b >= to_int(lift(low)), b < to_int(lift(high)))
        c.axiom(z3.ForAll(ks, body, patterns=[b]) if ks else body)
        if not shape:
            return SymNum(b)
        return SymArray._make(shape, lambda *ix: F(*ix), "i")

    def geometric(self, p, size=None):
        c = ctx()
        pa = to_symarray(p)
        shape = pa._shape if size is None else _shape_arg(size)
        F = _draw("geo", shape, *([INT] * len(shape)), INT)
        if getattr(c, "rng", None) is not None:
            raise Unsupported("geometric draws with a ghost random state")
        ks = [c.fresh_var("rk") for _ in shape]
        b = F(*ks)
        c.axiom(z3.ForAll(ks, b >= 1, patterns=[b]) if ks else b >= 1)
        if not shape:
            return SymNum(b)
        return SymArray._make(shape, lambda *ix: F(*ix), "i")

    def choice(self, a, size=None, replace=True, p=None):
        if not core._CTX:
            return _np.random.choice(a, size, replace, p)
        c = ctx()
        if isinstance(a, (int, SymNum)):
            n, f = a, None
        else:
            arr = to_symarray(a)
            n, f = arr._shape[0], arr._snapshot()
        if size is None:
            j = c.fresh_int("choice") if getattr(c, "rng", None) is None else _draw("choice", [n], INT)()
            c.axiom(in_range(j, n))
            return SymNum(j) if f is None else wrap(f(j))
        shape = _shape_arg(size)
        if len(shape) != 1:
            raise Unsupported("choice rank")
        F = _draw("choice" if replace else "subset", [n, *shape], INT, INT)
        k, l = c.fresh_var("k"), c.fresh_var("l")
        m = shape[0]
        if not replace and not c.decide(I(m) <= I(n)):
            raise ValueError("Cannot take a larger sample than population when replace is False")
        c.axiom(z3.ForAll([k], z3.Implies(in_range(k, m), in_range(F(k), n)), patterns=[F(k)]))
        if not replace:
            c.axiom(
                z3.ForAll(
                    [k, l], z3.Implies(z3.And(in_range(k, m), in_range(l, m), k != l), F(k) != F(l)),
                    patterns=[z3.MultiPattern(F(k), F(l))],
                )
            )
        return SymArray._make((m,), (lambda i: F(i)) if f is None else (lambda i: f(F(i))), "i" if f is None else arr.kind)

    def seed(self, *a):
        if not core._CTX:
            _np.random.seed(*a)
        elif getattr(ctx(), "rng", None) is not None:
            ctx().rng.restart(*a)

    def __getattr__(self, n):
        r = getattr(_np.random, n)
        if not callable(r) or isinstance(r, type):
            return r

        def call(*a, **k):
            if core._CTX:
                raise Unsupported(f"np.random.{n}")
            return r(*a, **k)

        return call


random = SymRandom()


class _Linalg:
    LinAlgError = _np.linalg.LinAlgError

    def __getattr__(self, n):
        r = getattr(_np.linalg, n)

        def call(*a, **k):
            if core._CTX and has_sym(a):
                raise Unsupported(f"np.linalg.{n}")
            return r(*a, **k)

        return call


np = ShimModule(
    _np, TABLE,
    sub={"ndarray": SymArray, "random": random, "r_": _RClass(), "c_": _CClass(), "newaxis": None, "linalg": _Linalg()},
)


class SymNorm:
    """scipy.stats.norm"""

    def cdf(self, x):
        return umap(core.mk_cdf, x) if has_sym(x) else self._r("cdf", x)

    def pdf(self, x):
        return umap(core.mk_pdf, x) if has_sym(x) else self._r("pdf", x)

    def _r(self, n, *a):
        from scipy.stats import norm

        return getattr(norm, n)(*a)

    def logcdf(self, x):
        if has_sym(x):
            return umap(lambda e: core.mk_log(core.mk_cdf(e)), x)
        return self._r("logcdf", x)

    def __getattr__(self, n):
        from scipy.stats import norm

        return getattr(norm, n)


norm = SymNorm()
