"""support functions called by the rewritten source (loops, comprehensions, builtins)"""
import builtins

import numpy as _np

from . import core, symnp
from .core import Sym, SymBool, SymNum, SymObj, SymVal, Unsupported, UNBOUND, PathDone, ctx, lift, wrap, z3, Val, mentions
from .symnp import I, L, SymArray, SymSeq, Store, conc, generic, in_range, is_symarray, ite, merge, subst, to_seq

CONT, BREAK = object(), object()


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def active():
    return bool(core._CTX)


# ---------------------------------------------------------------- iteration protocol
class SymRange:
    _is_sym = True

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        n = I(hi) - I(lo)
        n = z3.simplify(n)
        if not z3.is_int_value(n) and ctx()._check(n < 0, 1500) != z3.unsat:
            n = z3.If(n > 0, n, z3.IntVal(0))
        self.n = L(n)

    def at(self, k):
        return wrap(z3.simplify(I(self.lo) + k)) if not (conc(self.lo) and self.lo == 0) else wrap(k)


class SymZip:
    _is_sym = True

    def __init__(self, parts):
        self.parts = [as_iter(p) for p in parts]
        n = None
        for p in self.parts:
            if n is None or symnp.same(n, p.n):
                n = p.n
            else:
                a, b = I(n), I(p.n)
                if ctx()._check(a > b, 1500) == z3.unsat:
                    pass
                elif ctx()._check(b > a, 1500) == z3.unsat:
                    n = p.n
                else:
                    n = L(z3.If(a < b, a, b))
        self.n = n

    def at(self, k):
        return tuple(p.at(k) for p in self.parts)


class SymEnum:
    _is_sym = True

    def __init__(self, it, start=0):
        self.it, self.start = as_iter(it), start
        self.n = self.it.n

    def at(self, k):
        return (wrap(z3.simplify(k + I(self.start))), self.it.at(k))


class SymMap:
    _is_sym = True

    def __init__(self, f, its):
        self.f = f
        self.it = as_iter(its[0]) if len(its) == 1 else SymZip(its)
        self.many = len(its) > 1
        self.n = self.it.n

    def at(self, k):
        x = self.it.at(k)
        return self.f(*x) if self.many else self.f(x)


class _ArrIter:
    def __init__(self, a):
        self.a = a
        if a.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        self.n = a._shape[0]

    def at(self, k):
        return self.a[SymIdx(k)] if False else _row(self.a, k)


def _row(a, k):
    """a[k] for an index known to be in range"""
    k = I(k)
    if a.ndim == 1:
        return wrap(a._at(k))
    saved, key = symnp.norm_index, SymNum(k)
    symnp.norm_index = lambda ix, n: k if ix is key else saved(ix, n)
    try:
        return a[key]
    finally:
        symnp.norm_index = saved


def as_iter(x):
    if isinstance(x, (SymSeq, SymRange, SymZip, SymEnum, SymMap, _ArrIter)):
        return x
    if is_symarray(x):
        if hasattr(type(x), "__iter__") and type(x).__iter__ is not SymArray.__iter__:
            return as_iter(type(x).__iter__(x))
        return _ArrIter(x)
    if hasattr(x, "__pyvc_iter__"):
        return as_iter(x.__pyvc_iter__())
    if isinstance(x, (list, tuple, _np.ndarray, builtins.range)):
        return to_seq(x)
    m = getattr(type(x), "__iter__", None)
    if m is not None:
        r = m(x)
        if isinstance(r, SymIterator):
            return r.src
        return to_seq(list(r))
    raise TypeError(f"'{type(x).__name__}' object is not iterable")


class SymIterator:
    """result of iter() on a symbolic sequence"""

    _is_sym = True

    def __init__(self, src):
        self.src = src
        self.pos = 0
        self.n = src.n

    def at(self, k):
        return self.src.at(k)

    def __iter__(self):
        return self

    def __next__(self):
        if ctx().decide(I(self.n) > self.pos):
            self.pos += 1
            return self.src.at(z3.IntVal(self.pos - 1))
        raise StopIteration


def is_symiter(x):
    return isinstance(x, (SymSeq, SymRange, SymZip, SymEnum, SymMap, _ArrIter))


def loop_iter(x):
    """iterable of a for loop / comprehension: symbolic sequence object or the original"""
    if not active():
        return x
    if isinstance(x, SymSet) and x.distinct:
        x = x.it
    if isinstance(x, (SymSeq, SymRange, SymZip, SymEnum, SymMap)) or is_symarray(x) or isinstance(x, SymIterator):
        x = as_iter(x) if not isinstance(x, SymIterator) else x.src
        if conc(x.n):
            return [x.at(z3.IntVal(i)) for i in builtins.range(x.n)]
        return x
    m = getattr(type(x), "__iter__", None)
    if m is not None and getattr(type(x), "__module__", "").startswith("vbo"):
        r = m(x)
        if isinstance(r, SymIterator):
            return loop_iter(r.src)
        return r
    return x


# ---------------------------------------------------------------- comprehensions
def comp(kind, it, cond, f):
    it = loop_iter(it)
    if not is_symiter(it):
        if kind == "gen":
            return _gen(it, cond, f)
        out = []
        for x in it:
            if cond is None or cond(x):
                out.append(f(x))
        if kind == "list":
            return _l(out)
        if kind == "set":
            return builtins.set(out)
        if kind == "dict":
            return builtins.dict(out)
        if kind.startswith("flat"):
            acc = []
            sym = any(isinstance(o, SymSeq) and not conc(o.n) for o in out)
            if sym:
                acc = SymSeq(0, lambda i: None)
                for o in out:
                    acc = acc + o
            else:
                for o in out:
                    acc += list(o)
            if kind == "flatset":
                return builtins.set(acc)
            if kind == "flatdict":
                return builtins.dict(acc)
            return acc
        raise Unsupported(kind)
    if kind in ("set", "dict") or kind.startswith("flat"):
        raise Unsupported(f"{kind} comprehension over a symbolic sequence")
    if cond is None:
        k, t = generic(lambda i: f(it.at(i.e)), it.n)
        if t is None:
            return SymSeq(0, lambda i: None)
        return SymSeq(it.n, lambda i: subst(t, k, i))
    k, t = generic(lambda i: _truth(cond(it.at(i.e))), it.n)
    if t is None:
        return SymSeq(0, lambda i: None)
    b = core.to_bool(lift(t))
    m, s, r = symnp.mask_gather(lambda i: z3.substitute(b, (k, i)), it.n)
    k2, t2 = generic(lambda i: f(it.at(s(i.e))), m)
    if t2 is None:
        return SymSeq(0, lambda i: None)
    return SymSeq(m, lambda i: subst(t2, k2, i))


def _truth(x):
    if isinstance(x, (SymBool, bool, _np.bool_)):
        return x
    return builtins.bool(x)


def _gen(it, cond, f):
    for x in it:
        if cond is None or cond(x):
            yield f(x)


def _l(out):
    return out


def mklist():
    return SymSeq(0, lambda i: None) if active() else []


def fstr(*parts):
    vals = []
    sym = False
    for p in parts:
        if isinstance(p, tuple):
            v, fm = p
            if isinstance(v, Sym):
                sym = True
                vals.append(v)
            else:
                vals.append(fm(v))
        else:
            vals.append(p)
    if not sym:
        return "".join(vals)
    r = ""
    for v in vals:
        v = str_(v) if isinstance(v, Sym) else v
        if not isinstance(r, Sym) and r == "":
            r = v
        elif not isinstance(v, Sym) and v == "":
            pass
        else:
            r = SymObj(core.STRCAT(lift(r), lift(v)))
    return r


def contains(c, x):
    if active():
        if isinstance(x, Sym):
            if isinstance(c, (list, tuple)):
                out = z3.BoolVal(False)
                for y in c:
                    e = y == x
                    if isinstance(e, Sym):
                        out = z3.Or(out, e.e)
                    elif e:
                        return True
                return wrap(z3.simplify(out))
            if isinstance(c, (builtins.dict, builtins.set)) or type(c).__name__ in ("dict_keys",):
                for y in c:
                    if isinstance(y, Sym) and y.e.eq(x.e):
                        return True
                return contains(builtins.list(c), x)
        m = getattr(type(c), "__contains__", None)
        if m is not None and (is_symarray(c) or isinstance(c, SymSeq) or getattr(type(c), "__module__", "").startswith("vbo")):
            return m(c, x)
    return x in c


def not_contains(c, x):
    r = contains(c, x)
    return ~r if isinstance(r, SymBool) else not r


# ---------------------------------------------------------------- loop summarisation
class AccSeq(SymSeq):
    """list state at a generic iteration: only appends / reads of its tail are allowed"""

    def __init__(self, orig):
        super().__init__(0, lambda i: self._no())
        self.orig = orig
        self.log = []

    def _no(self):
        raise Unsupported("loop body reads a list it accumulates")

    def append(self, v):
        symnp.journal(self, "log")
        self.log = self.log + [v]

    def extend(self, o):
        o = to_seq(o)
        if not conc(o.n):
            raise Unsupported("extend by a symbolic list in a loop")
        symnp.journal(self, "log")
        self.log = self.log + [o.at(i) for i in builtins.range(o.n)]

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = AccSeq(self.orig)
        o = to_seq(o)
        if not conc(o.n):
            raise Unsupported("extend by a symbolic list in a loop")
        r.log = self.log + [o.at(i) for i in builtins.range(o.n)]
        return r

    def __getitem__(self, i):
        self._no()

    def __bool__(self):
        self._no()

    def __len__(self):
        self._no()

    def __iter__(self):
        self._no()

    def __contains__(self, x):
        self._no()

    def copy(self):
        self._no()


def _read(get):
    st = {}
    for name, g in get:
        try:
            st[name] = g()
        except (NameError, AttributeError):
            st[name] = UNBOUND
    return st


class _HF:
    """havoc function for an array store at a generic iteration"""


def has_contract(key):
    return active() and key in ctx().loop_contracts


class Poison:
    """value of a local variable after a loop cut that its contract does not describe"""

    def _no(self, *a, **k):
        raise Unsupported("a loop variable the loop contract does not describe")

    __getattr__ = __call__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _no
    __bool__ = __len__ = __iter__ = __lt__ = __le__ = __gt__ = __ge__ = __and__ = __or__ = __neg__ = __invert__ = __contains__ = __eq__ = __ne__ = __iadd__ = _no
    __hash__ = None


POISON = Poison()


def _contract(fn, *a):
    """runs a part of a loop contract; if it does not fit the loop (a renamed variable, another data structure) the
    function is out of reach, which is not a violation"""
    try:
        return list(fn(*a)) if fn.__name__ != "havoc" else fn(*a)
    except (Unsupported, PathDone):
        raise
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception) as e:
        raise Unsupported(f"the loop contract does not fit the loop: {type(e).__name__}: {e}") from e


def _havoc(lc, st, set_, body):
    try:
        hv = dict(lc.havoc(st))
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, z3.Z3Exception) as e:
        raise Unsupported(f"the loop contract does not fit the loop: {type(e).__name__}: {e}") from e
    cells = dict(zip(body.__code__.co_freevars, body.__closure__ or ()))
    for k in list(hv):
        if k not in st:
            # a local list the loop body mutates in place
            if k not in cells:
                raise Unsupported(f"the loop contract does not fit the loop: no variable {k}")
            cells[k].cell_contents = hv.pop(k)
    for k, x in st.items():
        if k not in hv and x is not UNBOUND:
            hv[k] = POISON
    set_(hv)
    ctx().loop_env = _env(body)
    return {**st, **hv}


def _containers(body):
    return [(x, len(x)) for x in _env(body).values() if type(x) in (list, dict, set)]


def _unchanged(before):
    for x, n in before:
        if len(x) != n:
            raise Unsupported("the loop changes a container its contract does not describe")


def _env(body):
    out = {}
    for n, c in zip(body.__code__.co_freevars, body.__closure__ or ()):
        try:
            out[n] = c.cell_contents
        except ValueError:
            pass
    return out


def cut_while(test, body, get, set_, key):
    """Hoare rule: assert inv; havoc; assume inv; if test: body; assert inv; stop"""
    c = ctx()
    lc = c.loop_contracts[key]
    st = _read(get)
    c.loop_env = _env(body)
    for nm, g in _contract(lc.inv, st):
        c.oblige(f"{key}:inv-init:{nm}", g)
    st2 = _havoc(lc, st, set_, body)
    for nm, g in _contract(lc.inv, st2):
        c.assume(g)
    c.over_approx = True
    if test():
        before = _containers(body)
        r = body()
        _unchanged(before)
        if r is BREAK or isinstance(r, Ret):
            return r
        st3 = _read(get)
        c.loop_env = _env(body)
        for nm, g in _contract(lc.inv, st3):
            c.oblige(f"{key}:inv-preserved:{nm}", g)
        raise PathDone()
    return None


def _reach_stores(state):
    pass


def sym_for(it, body, get, set_, key):
    """for-rule for symbolic-length iterables. The effect of a generic iteration k is computed
    on a havocked loop state; if iterations are independent (map / reduce / filter shape,
    checked by the solver), the effect of the whole loop follows for every length."""
    c = ctx()
    if key in c.loop_contracts:
        return _cut_for(it, body, get, set_, key)
    pre = _read(get)
    n = it.n
    # --- discovery: which stores are written by one iteration?
    written = {}  # id(obj) -> (obj, attr)

    def note(journal):
        for u in journal:
            if isinstance(u, symnp.Undo):
                written[(id(u.obj), u.attr)] = u.obj

    accs = {}
    k0 = c.fresh_var("d")
    lists = {nm: v for nm, v in pre.items() if isinstance(v, SymSeq) and not isinstance(v, AccSeq)}

    def reset():
        set_({nm: v for nm, v in pre.items() if v is not UNBOUND})

    def disc():
        reset()
        body(it.at(k0))

    nob = len(c.obligations)
    saved_over = c.over_approx
    c._disc = getattr(c, "_disc", 0) + 1
    try:
        c.explore(disc, var=k0, guard=in_range(k0, n), on_path=note)
    finally:
        c._disc -= 1
    del c.obligations[nob:]
    reset()
    stores = {i: o for (i, a), o in written.items() if isinstance(o, Store)}
    seqs = {i: o for (i, a), o in written.items() if isinstance(o, SymSeq)}
    # --- which python variables change?
    k = c.fresh_var("k")
    guard = in_range(k, n)
    # havoc numeric loop variables that existed before
    hav = {}
    for nm, v in pre.items():
        if v is UNBOUND:
            continue
        if isinstance(v, (bool, SymBool)):
            hav[nm] = SymBool(z3.Bool(c.name("h_" + nm)))
        elif isinstance(v, (int, float, SymNum, _np.integer, _np.floating)):
            e = lift(v)
            hav[nm] = SymNum(z3.Const(c.name("h_" + nm), e.sort()))
        elif isinstance(v, (list, SymSeq)):
            hav[nm] = AccSeq(v)
    # havoc the written stores
    H = {}
    origs = {}
    for i, st in stores.items():
        sort = {"f": core.REAL, "i": core.INT, "b": core.BOOL, "O": core.Val, "U": core.U}[st.kind]
        ar = _arity(st)
        F = z3.Function(c.name("heap"), *([core.INT] * ar), sort)
        H[i] = F
        origs[i] = st.elem
    seq_orig = {}
    for i, s in seqs.items():
        if not any(s is v for v in pre.values()):
            # a list reached through an object attribute: treat like a store of appends
            seq_orig[i] = (s, s.n, s._elem)

    accmap = {}

    def run():
        reset()
        vals = {}
        for nm, h in hav.items():
            vals[nm] = AccSeq(h.orig) if isinstance(h, AccSeq) else h
        set_(vals)
        acc_now = {nm: v for nm, v in vals.items() if isinstance(v, AccSeq)}
        for i, st in stores.items():
            symnp.journal(st, "elem")
            F = H[i]
            object.__setattr__(st, "elem", lambda *ix, F=F: F(*ix))
        if seq_orig:
            raise Unsupported("loop appends to a list held in an object")
        r = body(it.at(k))
        post = _read(get)
        el = {i: st.elem for i, st in stores.items()}
        logs = {}
        for nm, a in acc_now.items():
            p = post.get(nm)
            if isinstance(p, AccSeq):
                logs[nm] = list(p.log)
            elif p is a:
                logs[nm] = list(a.log)
            else:
                logs[nm] = None
        return r, post, el, logs

    outs = c.explore(run, var=k, guard=guard)
    reset()
    hsyms = [h.e for h in hav.values() if isinstance(h, Sym)]
    hfuns = list(H.values())

    excs = [(d, r[1]) for d, r, _ in outs if r[0] == "exc"]
    oks = [(d, r[1]) for d, r, _ in outs if r[0] == "ok"]
    normal = [(d, v) for d, v in oks if v[0] is None or v[0] is CONT]
    exits = [(d, v) for d, v in oks if not (v[0] is None or v[0] is CONT)]

    def state_after(m):
        """python state / heap after m normal iterations (m z3 Int)"""
        newvals = {}
        dec = lambda d: z3.And(*d) if d else z3.BoolVal(True)
        for nm in pre:
            posts = [(d, v[1].get(nm, UNBOUND)) for d, v in normal]
            if nm in hav and isinstance(hav[nm], AccSeq):
                ls = [(d, v[3].get(nm)) for d, v in normal]
                if any(l is None for _, l in ls):
                    newvals[nm] = UNBOUND  # rebound in the body: per-iteration temporary
                    continue
                newvals[nm] = _acc_result(pre[nm], ls, k, m, hsyms, hfuns, H, origs)
                continue
            if nm in hav:
                h = hav[nm].e
                if builtins.all(isinstance(p, Sym) and p.e.eq(h) or (not isinstance(p, Sym) and p is pre[nm]) for _, p in posts):
                    newvals[nm] = pre[nm]
                    continue
                newvals[nm] = _num_result(nm, pre[nm], h, posts, k, m, hsyms, hfuns)
                continue
            if builtins.all(p is pre[nm] for _, p in posts):
                newvals[nm] = pre[nm]
            else:
                newvals[nm] = UNBOUND
        newel = {}
        for i, st in stores.items():
            newel[i] = _store_result(st, H[i], origs[i], [(d, v[2][i]) for d, v in normal], k, m, n, hsyms, hfuns, H, origs)
        return newvals, newel

    def commit(m):
        nv, ne = state_after(m)
        for i, st in stores.items():
            symnp.journal(st, "elem")
            object.__setattr__(st, "elem", ne[i])
        set_(nv)

    def clean(fs):
        return not builtins.any(_mentions_h(f, hsyms, hfuns) for f in fs)

    exit_conds = [d for d, _ in exits] + [d for d, _ in excs]
    if exit_conds:
        if not normal:
            if c.decide(I(n) > 0):
                r = body(it.at(z3.IntVal(0)))
                return None if r is BREAK else r
            return None
        for d in exit_conds:
            if not clean(d):
                raise Unsupported(f"early exit of {key} depends on the accumulated state")
        ex = z3.Or(*[z3.And(*d) if d else z3.BoolVal(True) for d in exit_conds])
        if c.decide(z3.Exists([k], z3.And(guard, ex))):
            j = c.fresh_int("first")
            c.assume(in_range(j, n))
            c.assume(z3.substitute(ex, (k, j)))
            c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < j), z3.Not(ex))))
            commit(j)
            r = body(it.at(j))
            if r is BREAK:
                return None
            if isinstance(r, Ret):
                return r
            raise PathDone()  # contradicts the exit condition
        commit(I(n))
        return None
    if not normal:
        # no iteration is possible: either the sequence is empty or every path of the body has ended elsewhere
        if c.decide(I(n) > 0):
            raise PathDone()
        return None
    commit(I(n))
    return None


def _arity(st):
    import inspect

    for ar in (1, 2, 3, 0):
        try:
            st.elem(*[z3.Int("ar!")] * ar)
            return ar
        except (TypeError, IndexError, z3.Z3Exception):
            continue
    raise Unsupported("store arity")


def getitem(obj, ix):
    """obj[ix] for a computed index"""
    if isinstance(ix, SymNum) and type(obj) in (builtins.list, builtins.tuple):
        return symnp.to_seq(obj)[ix]
    return obj[ix]


def _mentions_h(e, hsyms, hfuns):
    seen, stack = builtins.set(), [e]
    ids = [h.get_id() for h in hsyms]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() == 0:
                if x.get_id() in ids:
                    return True
            elif builtins.any(x.decl().eq(f) for f in hfuns):
                return True
            stack.extend(x.children())
    return False


def _h_apps(e, hfuns):
    out, seen, stack = [], builtins.set(), [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            if x.num_args() and builtins.any(x.decl().eq(f) for f in hfuns):
                out.append(x)
            stack.extend(x.children())
    return out


def _num_result(nm, pre, h, posts, k, m, hsyms, hfuns):
    c = ctx()
    vals = []
    for d, p in posts:
        if p is UNBOUND:
            return UNBOUND
        vals.append((d, p))
    # temporary? value independent of the havocked value
    try:
        v = lift(merge(vals))
    except Unsupported:
        return UNBOUND
    if not _mentions_h(v, [h], []) and not _mentions_h(v, hsyms, hfuns):
        # value of the last iteration
        last = z3.substitute(v, (k, m - 1))
        a, b = core.unify(last, lift(pre))
        return wrap(z3.If(m > 0, a, b))
    if v.sort() == core.BOOL:
        # conjunction / disjunction accumulators
        t = z3.simplify(z3.substitute(v, (h, z3.BoolVal(True))))
        f = z3.simplify(z3.substitute(v, (h, z3.BoolVal(False))))
        others = [x for x in hsyms if not x.eq(h)]
        if _mentions_h(t, others, hfuns) or _mentions_h(f, others, hfuns):
            return UNBOUND
        if z3.is_false(f):
            return wrap(z3.And(lift(pre), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), t))))
        if z3.is_true(t):
            return wrap(z3.Or(lift(pre), z3.Exists([k], z3.And(k >= 0, k < m, f))))
        return UNBOUND
    delta = z3.simplify(v - h) if v.sort() == h.sort() else z3.simplify(core.to_real(v) - core.to_real(h))
    delta = _factor_delta(vals, h) if _mentions_h(delta, [h], []) else delta
    if delta is None or _mentions_h(delta, hsyms, hfuns):
        return UNBOUND
    if not mentions(delta, k):
        q = core._q(delta)
        if delta.sort() == core.INT:
            tot = delta * m
        else:
            tot = delta * z3.ToReal(m)
    else:
        tot = symnp.sum_term(L(m), lambda i: z3.substitute(delta, (k, i)))
    a, b = core.num_pair(lift(pre), tot)
    return wrap(a + b)


def _factor_delta(vals, h):
    """merge of per-path deltas"""
    outs = []
    for d, p in vals:
        e = lift(p)
        x = z3.simplify((e - h) if e.sort() == h.sort() else core.to_real(e) - core.to_real(h))
        if _mentions_h(x, [h], []):
            return None
        outs.append((d, wrap(x)))
    return lift(merge(outs))


def _acc_result(pre, ls, k, m, hsyms, hfuns, H, origs):
    counts = builtins.set(len(l) for _, l in ls)
    pre = to_seq(pre)
    for d, l in ls:
        for v in l:
            if isinstance(v, Sym) and _mentions_h(v.e, hsyms, hfuns):
                raise Unsupported("appended value depends on the accumulated state")
    if len(counts) == 1:
        cnt = counts.pop()
        if cnt == 0:
            return pre
        if cnt == 1:
            t = merge([(d, l[0]) for d, l in ls])
            return pre + SymSeq(L(z3.simplify(m)), lambda i: subst(t, k, i))
        ts = [merge([(d, l[j]) for d, l in ls]) for j in builtins.range(cnt)]

        def el(i):
            v = subst(ts[-1], k, i / cnt)
            for j in builtins.range(cnt - 2, -1, -1):
                v = ite(i % cnt == j, subst(ts[j], k, i / cnt), v)
            return v

        return pre + SymSeq(L(z3.simplify(m * cnt)), el)
    if counts == {0, 1}:
        cond = z3.Or(*[z3.And(*d) if d else z3.BoolVal(True) for d, l in ls if len(l) == 1])
        if _mentions_h(cond, hsyms, hfuns):
            raise Unsupported("filter depends on the accumulated state")
        t = merge([(d, l[0]) for d, l in ls if len(l) == 1])
        mm, s, r = symnp.mask_gather(lambda i: z3.substitute(cond, (k, i)), L(z3.simplify(m)))
        return pre + SymSeq(mm, lambda i: subst(t, k, s(i)))
    raise Unsupported("irregular list accumulation in a loop")


def _store_result(st, F, orig, els, k, m, n, hsyms, hfuns, H, origs):
    """array contents after the loop"""
    c = ctx()
    ar = F.arity()
    ix = [z3.Int(c.name("ix")) for _ in builtins.range(ar)]
    own = F(*ix)
    vals = []
    for d, e in els:
        vals.append((d, wrap(e(*ix)) if not isinstance(e(*ix), bool) else e(*ix)))
    v = vals[-1][1]
    v = lift(v) if not isinstance(v, z3.ExprRef) else v
    for d, x in reversed(vals[:-1]):
        x = lift(x)
        a, b = core.unify(x, v)
        v = z3.If(z3.And(*d) if d else z3.BoolVal(True), a, b)
    v = z3.simplify(v)
    if v.eq(own):
        return orig
    changed = v != own
    guard = z3.And(k >= 0, k < I(n))
    # which axis identifies the iteration?
    for dim in builtins.range(ar):
        for off in _offsets(v, k, ix[dim]):
            goal = z3.Implies(z3.And(guard, changed), ix[dim] == k + off)
            if _valid(goal):
                # all reads of havocked heap must be at this iteration's own slice
                for app in _h_apps(v, hfuns):
                    if not app.decl().eq(F):
                        raise Unsupported("loop reads another array it also writes")
                    a = app.arg(dim)
                    if not _valid(z3.Implies(z3.And(guard, ix[dim] == k + off), a == k + off)):
                        raise Unsupported("loop iteration reads another iteration's slice")
                if _mentions_h(v, hsyms, []):
                    raise Unsupported("array write depends on a loop-carried variable")

                def el(*jx, dim=dim, off=off):
                    kk = z3.simplify(jx[dim] - off)
                    w = z3.substitute(v, *[(a, b) for a, b in zip(ix, jx)], (k, kk))
                    w = _replace_fun(w, F, orig)
                    return z3.If(z3.And(kk >= 0, kk < m), w, orig(*jx))

                return el
    raise Unsupported("array writes of the loop are not one slice per iteration")


def _offsets(v, k, ixd):
    return [z3.IntVal(0), z3.IntVal(1), z3.IntVal(-1)]


def _valid(goal):
    c = ctx()
    return c._check(z3.Not(goal), 5000) == z3.unsat


def _replace_fun(e, F, orig):
    cache = {}

    def go(x):
        i = x.get_id()
        if i in cache:
            return cache[i]
        if z3.is_quantifier(x):
            if _mentions_h(x.body(), [], [F]):
                raise Unsupported("quantified read of a loop-written array")
            r = x
        elif z3.is_app(x) and x.num_args():
            ch = [go(y) for y in x.children()]
            if x.decl().eq(F):
                r = orig(*ch)
            else:
                r = x.decl()(*ch) if builtins.any(a is not b for a, b in zip(ch, x.children())) else x
        else:
            r = x
        cache[i] = r
        return r

    return go(e)


def _cut_for(it, body, get, set_, key):
    """loop contract rule for `for`: inv(state, i)"""
    c = ctx()
    lc = c.loop_contracts[key]
    st = _read(get)
    c.loop_env = _env(body)
    for nm, g in _contract(lc.inv, st, 0, it):
        c.oblige(f"{key}:inv-init:{nm}", g)
    st2 = _havoc(lc, st, set_, body)
    i = c.fresh_int("iter")
    c.assume(z3.And(i >= 0, i <= I(it.n)))
    for nm, g in _contract(lc.inv, st2, SymNum(i), it):
        c.assume(g)
    c.over_approx = True
    if c.decide(i < I(it.n)):
        before = _containers(body)
        r = body(it.at(i))
        _unchanged(before)
        if isinstance(r, Ret):
            return r
        if r is BREAK:
            return None
        st3 = _read(get)
        c.loop_env = _env(body)
        for nm, g in _contract(lc.inv, st3, SymNum(i + 1), it):
            c.oblige(f"{key}:inv-preserved:{nm}", g)
        raise PathDone()
    return None


def strjoin(sep, parts):
    if not active():
        return sep.join(parts)
    parts = builtins.list(parts) if not isinstance(parts, (SymSeq, Sym)) else parts
    if isinstance(parts, (SymSeq, Sym)):
        return SymObj(z3.Const(ctx().name("text"), core.U))
    if not builtins.any(isinstance(p, Sym) for p in parts):
        return sep.join(parts)
    args = []
    for i, p in enumerate(parts):
        args += ([sep] if i else []) + [(p, builtins.str) if isinstance(p, Sym) else p]
    return fstr(*args)


def strmod(fmt, arg):
    a = arg if isinstance(arg, tuple) else (arg,)
    if active() and builtins.any(isinstance(x, Sym) or is_symarray(x) or isinstance(x, SymSeq) for x in a):
        return SymObj(z3.Const(ctx().name("text"), core.U))
    return fmt % arg


class LoopContract:
    def __init__(self, havoc, inv):
        self.havoc, self.inv = havoc, inv


# ---------------------------------------------------------------- builtins of the shadow modules
def len_(x):
    if active():
        if isinstance(x, SymSeq):
            if isinstance(x, AccSeq):
                x._no()
            return x.n
        if isinstance(x, (SymRange, SymZip, SymEnum, SymMap)):
            return x.n
        if is_symarray(x):
            if type(x).__len__ is not SymArray.__len__:
                return type(x).__len__(x)
            if x.ndim == 0:
                raise TypeError("len() of unsized object")
            return x._shape[0]
        if isinstance(x, SymObj):
            raise Unsupported("len of an opaque string")
        if isinstance(x, Sym):
            raise TypeError("object of type 'float' has no len()")
        m = getattr(type(x), "__len__", None)
        if m is not None and getattr(type(x), "__module__", "").startswith("vbo"):
            return m(x)
    return len(x)


def range_(*a):
    if active() and builtins.any(isinstance(x, Sym) for x in a):
        a = [wrap(core.to_int(x.e)) if isinstance(x, SymVal) else x for x in a]
        if len(a) == 1:
            return SymRange(0, a[0])
        if len(a) == 2:
            return SymRange(a[0], a[1])
        raise Unsupported("range with a step")
    return builtins.range(*a)


def _cls_of(x):
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, SymNum):
        return int if x.is_int() else float
    if isinstance(x, SymObj):
        return str
    if isinstance(x, core.SymRef):
        return ctx().__dict__.get("ref_cls")
    if isinstance(x, SymSeq):
        return tuple if x.pykind == "tuple" else list
    return None


def isinstance_(x, cls):
    if active() and isinstance(x, (Sym, SymSeq)) and not is_symarray(x):
        cs = cls if isinstance(cls, tuple) else (cls,)
        flat = []
        for c in cs:
            flat.extend(c if isinstance(c, tuple) else (c,))
        if isinstance(x, SymVal):
            t = z3.BoolVal(False)
            for c in flat:
                if c in (float, _np.float64, _np.floating):
                    t = z3.Or(t, Val.is_VR(x.e))
                elif c in (int, _np.integer, _np.int64):
                    t = z3.Or(t, Val.is_VI(x.e), Val.is_VB(x.e) if c is int else z3.BoolVal(False))
                elif c in (bool, _np.bool_):
                    t = z3.Or(t, Val.is_VB(x.e))
                elif c is str:
                    t = z3.Or(t, Val.is_VO(x.e))
                elif _is_number(c):
                    t = z3.Or(t, Val.is_VR(x.e), Val.is_VI(x.e))
            return wrap(z3.simplify(t))
        k = _cls_of(x)
        if isinstance(x, core.SymRef):
            return k is not None and builtins.any(issubclass(k, c) for c in flat if isinstance(c, type))
        for c in flat:
            if k is float and (c in (float, _np.floating, _np.float64, object) or _is_number(c)):
                return True
            if k is int and (c in (int, _np.integer, _np.int64, object) or _is_number(c)):
                return True
            if k is bool and c in (bool, int, _np.bool_, object):
                return True
            if k is str and c in (str, object):
                return True
            if k in (list, tuple) and (c in (k, object) or c is SymSeq):
                return True
        return False
    cs = cls
    return isinstance(x, cs)


def _is_number(c):
    import numbers

    return c in (numbers.Number, numbers.Real)


def any_(x):
    if active():
        x = loop_iter(x)
        if is_symiter(x):
            k, t = generic(lambda i: _truth(x.at(i.e)), x.n)
            if t is None:
                return False
            return wrap(symnp.exists(k, x.n, core.to_bool(lift(t))))
        out = z3.BoolVal(False)
        for y in x:
            if isinstance(y, (Sym,)):
                out = z3.Or(out, core.to_bool(y.e))
            elif y:
                return True
        return wrap(z3.simplify(out))
    return builtins.any(x)


def all_(x):
    if active():
        x = loop_iter(x)
        if is_symiter(x):
            k, t = generic(lambda i: _truth(x.at(i.e)), x.n)
            if t is None:
                return True
            return wrap(symnp.forall(k, x.n, core.to_bool(lift(t))))
        out = z3.BoolVal(True)
        for y in x:
            if isinstance(y, (Sym,)):
                out = z3.And(out, core.to_bool(y.e))
            elif not y:
                return False
        return wrap(z3.simplify(out))
    return builtins.all(x)


def _minmax(which):
    red = getattr(builtins, which)

    def f(*a, key=None, default=None):
        if active():
            if len(a) == 1:
                it = loop_iter(a[0])
                if is_symiter(it):
                    if key is not None:
                        raise Unsupported("min/max with key")
                    return symnp._extremum(symnp.to_symarray(SymSeq(it.n, it.at)), None, which)
                a = builtins.list(it)
            if key is None and builtins.any(isinstance(x, Sym) for x in a):
                r = lift(a[0])
                for x in a[1:]:
                    r = (core.mk_min if which == "min" else core.mk_max)(r, lift(x))
                return wrap(r)
            return red(a, key=key) if key else red(a)
        if len(a) == 1 and default is not None:
            return red(a[0], key=key, default=default)
        return red(*a, key=key) if key else red(*a)

    return f


min_, max_ = _minmax("min"), _minmax("max")


def sum_(x, start=0):
    if active():
        x = loop_iter(x)
        if is_symiter(x):
            k, t = generic(lambda i: x.at(i.e), x.n)
            if t is None:
                return start
            e = lift(t)
            r = wrap(symnp.sum_term(x.n, lambda i: z3.substitute(e, (k, i))))
            return r if isinstance(start, int) and start == 0 else start + r
        r = start
        for y in x:
            r = r + y
        return r
    return builtins.sum(x, start)


def int_(x=0, *a):
    if isinstance(x, Sym):
        if isinstance(x, SymObj):
            raise Unsupported("int of str")
        return wrap(core.to_int(x.e))
    if is_symarray(x):
        return int_(x.item())
    return builtins.int(x, *a)


def float_(x=0.0):
    if isinstance(x, Sym):
        if isinstance(x, SymObj):
            raise Unsupported("float of str")
        return wrap(core.to_real(x.e))
    if is_symarray(x):
        return float_(x.item())
    return builtins.float(x)


def bool_(x=False):
    if isinstance(x, SymBool):
        return x
    return builtins.bool(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return isinstance_(x, list)

    def __eq__(cls, o):
        return o is cls or o is list

    def __hash__(cls):
        return hash(list)


def list_(*a):
    if not active():
        return builtins.list(*a)
    if not a:
        return SymSeq(0, lambda i: None)
    x = loop_iter(a[0])
    if is_symiter(x):
        if isinstance(x, SymSeq):
            return x.copy()
        k, t = generic(lambda i: x.at(i.e), x.n)
        return SymSeq(x.n, lambda i: subst(t, k, i))
    return builtins.list(x)


def tuple_(*a):
    if not active() or not a:
        return builtins.tuple(*a)
    x = loop_iter(a[0])
    if is_symiter(x):
        r = list_(x)
        r.pykind = "tuple"
        return r
    return builtins.tuple(x)


def _symargs(xs):
    return builtins.any(
        is_symiter(x) or is_symarray(x) or isinstance(x, SymIterator) or getattr(type(x), "__module__", "").startswith("vbo")
        for x in xs
    )


def zip_(*xs, **k):
    if active() and _symargs(xs):
        xs = [loop_iter(x) for x in xs]
        if builtins.any(is_symiter(x) for x in xs):
            return SymZip(xs)
    return builtins.zip(*xs, **k)


def enumerate_(x, start=0):
    if active():
        x = loop_iter(x)
        if is_symiter(x):
            return SymEnum(x, start)
    return builtins.enumerate(x, start)


def map_(f, *xs):
    if active():
        xs = [loop_iter(x) for x in xs]
        if builtins.any(is_symiter(x) for x in xs):
            return SymMap(f, xs)
    return builtins.map(f, *xs)


def iter_(x, *a):
    if active():
        y = loop_iter(x)
        if is_symiter(y):
            return SymIterator(y)
        return builtins.iter(y, *a)
    return builtins.iter(x, *a)


def sorted_(x, key=None, reverse=False):
    if active():
        x = loop_iter(x)
        if is_symiter(x):
            raise Unsupported("sorted")
        if builtins.any(isinstance(y, Sym) for y in x):
            raise Unsupported("sorted")
    return builtins.sorted(x, key=key, reverse=reverse)


def reversed_(x):
    if active() and (isinstance(x, SymSeq) or is_symarray(x)):
        return x[::-1]
    return builtins.reversed(x)


def str_(x="", *a):
    if isinstance(x, Sym):
        if isinstance(x, SymObj):
            return x
        e = x.e
        if e.sort() == core.INT:
            return SymObj(core.STR_I(e))
        if e.sort() == core.REAL:
            return SymObj(core.STR_R(e))
        if e.sort() == core.Val:
            return SymObj(symnp.conv(e, "U"))
        raise Unsupported("str of bool")
    return builtins.str(x, *a)


def set_(*a):
    if active() and a:
        x = loop_iter(a[0])
        if is_symiter(x):
            return SymSet(x)
        return builtins.set(x)
    return builtins.set(*a)


class SymSet:
    """set(seq) of a symbolic sequence: only len (distinct count) and equality to another set"""

    _is_sym = True

    def __init__(self, it, distinct=False):
        self.it, self.distinct = it, distinct

    @property
    def n(self):
        """number of distinct elements: equals len iff all distinct"""
        c = ctx()
        m = c.fresh_int("distinct")
        i, j = c.fresh_var("i"), c.fresh_var("j")
        N = I(self.it.n)
        a, b = lift(self.it.at(i)), lift(self.it.at(j))
        alld = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N), z3.Not(core.eq(a, b))))
        c.axiom(z3.And(m <= N, m >= 0, (m == N) == alld))
        return SymNum(m)

    def __len__(self):
        raise Unsupported("len of symbolic set")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic set")

    def _pred(self, e):
        """z3: e is an element"""
        k = ctx().fresh_var("in")
        return z3.Exists([k], z3.And(in_range(k, self.it.n), core.eq(lift(self.it.at(k)), e)))

    def _select(self, keep):
        """elements x of self with keep(x), in an arbitrary order (elements of self.it are distinct)"""
        c = ctx()
        it = self.it
        i, j = c.fresh_var("i"), c.fresh_var("j")
        N = I(it.n)
        dist = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < N), z3.Not(core.eq(lift(it.at(i)), lift(it.at(j))))))
        if not _valid(dist):
            raise Unsupported("set operation on a sequence with possibly repeated elements")
        m, s, r = symnp.mask_gather(lambda q: keep(lift(it.at(q))), it.n)
        P, Q = c.fresh_fun("ord", core.INT, core.INT), c.fresh_fun("ordi", core.INT, core.INT)
        k = c.fresh_var("k")
        c.axiom(z3.ForAll([k], z3.Implies(in_range(k, m), z3.And(in_range(P(k), m), Q(P(k)) == k)), patterns=[P(k)]))
        c.axiom(z3.ForAll([k], z3.Implies(in_range(k, m), z3.And(in_range(Q(k), m), P(Q(k)) == k)), patterns=[Q(k)]))
        # tie the enumeration to the index terms of the base sequence, so that the solver finds the preimage
        c.axiom(z3.ForAll([k], z3.Implies(z3.And(in_range(k, it.n), keep(lift(it.at(k)))),
                                          z3.And(in_range(Q(r(k)), m), s(P(Q(r(k)))) == k)), patterns=[lift(it.at(k))]))
        if not c.bound:
            c.__dict__.setdefault("_rankfns", []).append(lambda q: Q(r(q)))
        return SymSet(SymSeq(m, lambda q: it.at(s(P(q)))), True)

    def __sub__(self, o):
        o = o if isinstance(o, SymSet) else SymSet(to_seq(builtins.list(o)))
        return self._select(lambda e: z3.Not(o._pred(e)))

    def __and__(self, o):
        return self._select(lambda e: o._pred(e))

    def __contains__(self, v):
        return SymSeq(self.it.n, self.it.at).__contains__(v)


def abs_(x):
    if is_symarray(x) or isinstance(x, Sym):
        return x.__abs__()
    return builtins.abs(x)


def round_(x, n=0):
    if isinstance(x, Sym):
        return wrap(core.mk_round(x.e, n))
    return builtins.round(x, n)


def print_(*a, **k):
    if not active():
        builtins.print(*a, **k)


_len0 = len_


def len2(x):
    if isinstance(x, SymSet):
        return x.n
    return _len0(x)


# classes used with isinstance() stay classes: shadow builtins are callables with a class identity
class _BuiltinProxy:
    pass


BUILTINS = dict(builtins.__dict__)
BUILTINS.update(
    len=len2, range=range_, isinstance=isinstance_, any=any_, all=all_, min=min_, max=max_, sum=sum_, zip=zip_,
    enumerate=enumerate_, map=map_, iter=iter_, sorted=sorted_, reversed=reversed_, abs=abs_, round=round_, print=print_,
)


def _typed(name, cls, fn):
    """`int`, `float`, `list`... : callable like fn, but usable as the class in isinstance / dtype="""

    class M(type):
        def __call__(self, *a, **k):
            return fn(*a, **k)

        def __instancecheck__(self, x):
            return builtins.bool(isinstance_(x, cls))

        def __subclasscheck__(self, c):
            return issubclass(c, cls)

        def __eq__(self, o):
            return o is self or o is cls

        def __hash__(self):
            return hash(cls)

        def __getattr__(self, n):
            return getattr(cls, n)

    return cls


# int/float/str/list/tuple/set/bool are classes in user code (isinstance, dtype=, type hints):
# the rewritten source calls them through `_pyvc_.call_<name>` only in call position
CALLS = {"int": int_, "float": float_, "bool": bool_, "list": list_, "tuple": tuple_, "str": str_, "set": set_}
