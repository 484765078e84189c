"""C03 search-space operations: names, types, bounds and index sets always describe the variables; results of
slicing, sum, difference, replication, filtering, removal, update; operands are left alone."""
import numpy as np

from pyvc.verify import *

P = "C03"
SP = "bayes_optim.search_space.search_space.SearchSpace."
TYPES = ["Real", "Integer", "Ordinal", "Discrete", "Bool", "Subset"]
CALLEE = ["the constructor / _set_data establish names, bounds and index sets for the variable list they get (proved: index_sets, descriptors; renaming of duplicates: bounded)"]


@proof(P, [SP + "_set_index"], timeout=20000)
def index_sets(v):
    """masks and index lists for a space of any size and any order of types"""
    m = v.mod("search_space.search_space")
    n = v.int("n", 1)
    s = object.__new__(m.SearchSpace)
    t = v.seq("t", n, "U")
    s.__dict__.update(dim=n, _var_type=t)
    v.assume(v.forall(n, lambda i: v.or_(*[v.eq(v.at(t, i), x) for x in TYPES])))
    s._set_index()
    i = v.generic(n)
    for x in TYPES:
        mask, idx = getattr(s, x.lower() + "_mask"), getattr(s, x.lower() + "_id")
        v.ensure(f"{x}: mask", v.eq(v.at(mask, i), v.eq(v.at(t, i), x)))
        j = v.generic(v.len(idx))
        v.ensure(f"{x}: listed indices have that type", v.eq(v.at(t, v.at(idx, j)), x))
        k = z3.Int("w" + x)
        v.ensure(f"{x}: every variable of that type is listed", v.implies(v.eq(v.at(t, i), x), SymBool(
            z3.Exists([k], z3.And(k >= 0, k < I(v.len(idx)), lift(v.at(idx, wrap(k))) == i.e)))))
        j2 = v.generic(v.len(idx))
        v.ensure(f"{x}: indices are increasing", v.implies(j < j2, v.at(idx, j) < v.at(idx, j2)))
    cat = ["Discrete", "Ordinal", "Bool", "Subset"]
    v.ensure("categorical mask", v.eq(v.at(s.categorical_mask, i), v.or_(*[v.eq(v.at(t, i), x) for x in cat])))
    j = v.generic(v.len(s.categorical_id))
    v.ensure("categorical indices", v.or_(*[v.eq(v.at(t, v.at(s.categorical_id, j)), x) for x in cat]))
    v.ensure("categorical count", v.eq(v.len(s.categorical_id), sum(v.len(getattr(s, x.lower() + "_id")) for x in cat)))


NAME = z3.Function("var_name", core.Ref, U)
LB, UB = z3.Function("var_lb", core.Ref, INT), z3.Function("var_ub", core.Ref, INT)


def mkspace(v, m, nm, n):
    """a space of n variables with arbitrary distinct names and arbitrary bounds"""
    data, F = v.refs(nm, n, m.Integer, name=lambda r: NAME(r), bounds=lambda r: (wrap(LB(r)), wrap(UB(r))))
    a, b = z3.Int(nm + "a"), z3.Int(nm + "b")
    v.assume(SymBool(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < I(n), b >= 0, b < I(n), a != b), NAME(F(a)) != NAME(F(b))),
                               patterns=[z3.MultiPattern(F(a), F(b))])))
    s = object.__new__(m.SearchSpace)
    s.__dict__.update(data=data, dim=n, _var_name=SymSeq(n, lambda i: SymObj(NAME(F(i)))), _random_seed=None, structure=[],
                      _bounds=SymSeq(n, lambda i: (wrap(LB(F(i))), wrap(UB(F(i))))), _var_type=SymSeq(n, lambda i: "Integer"))
    return s, (lambda i: NAME(F(i))), (lambda i: LB(F(i))), (lambda i: UB(F(i)))


def record(v, m):
    rec = {}

    def init(self, data, random_seed=None, structure=None):
        rec["data"] = data
        self.__dict__.update(data=data, structure=[], _random_seed=None)

    def set_data(self, data):
        rec["data"] = data
        self.__dict__["data"] = data

    v.stub(m.SearchSpace, "__init__", init)
    v.stub(m.SearchSpace, "_set_data", set_data)
    v.stub(m.SearchSpace, "_set_structure", lambda self, s=None: None)
    v.stub(m.SearchSpace, "_SearchSpace__set_type", staticmethod(lambda o: o))
    return rec


def same(v, tag, var, i, f):
    name, lb, ub = f
    ie = lift(i) if not isinstance(i, int) else I(i)
    v.ensure(f"{tag}: name", v.eq(var.name, SymObj(name(ie))))
    v.ensure(f"{tag}: bounds", v.and_(v.eq(var.bounds[0], wrap(lb(ie))), v.eq(var.bounds[1], wrap(ub(ie)))))


@proof(P, [SP + "__getitem__"], assume=CALLEE)
def slice_by_indices(v):
    m = v.mod("search_space.search_space")
    n, k = v.int("n", 1), v.int("k", 1)
    s, *f = mkspace(v, m, "s", n)
    rec = record(v, m)
    idx = v.array("idx", k, "i")
    v.assume(v.forall(k, lambda j: v.and_(v.at(idx, j) >= 0, v.at(idx, j) < n)))
    s[idx]
    v.ensure("one variable per index", v.eq(v.len(rec["data"]), k))
    j = v.generic(k)
    same(v, "in the given order", v.at(rec["data"], j), v.at(idx, j), f)


@proof(P, [SP + "__getitem__"], assume=CALLEE)
def slice_by_mask(v):
    m = v.mod("search_space.search_space")
    n = v.int("n", 1)
    s, *f = mkspace(v, m, "s", n)
    rec = record(v, m)
    mask = v.array("mask", n, "b")
    s[mask]
    ln = v.len(rec["data"])
    i = v.generic(n)
    k = z3.Int("w")
    d = rec["data"]
    v.ensure("every selected variable is there", v.implies(v.at(mask, i), SymBool(
        z3.Exists([k], z3.And(k >= 0, k < I(ln), lift(v.at(d, wrap(k)).name) == f[0](i.e))))))
    v.ensure("no other variable is there", v.implies(v.not_(v.at(mask, i)), SymBool(
        z3.Not(z3.Exists([k], z3.And(k >= 0, k < I(ln), lift(v.at(d, wrap(k)).name) == f[0](i.e)))))))


@proof(P, [SP + "filter", SP + "__getitem__"], assume=CALLEE)
def filter_by_name(v):
    for invert in (False, True):
        m = v.mod("search_space.search_space")
        n, q = v.int("n", 1), v.int("q", 1)
        s, *f = mkspace(v, m, "s", n)
        rec = record(v, m)
        keys = v.seq("keys", q, "U")
        s.filter(keys, invert=invert)
        ln, d = v.len(rec["data"]), rec["data"]
        i = v.generic(n)
        k, j = z3.Int("w"), z3.Int("wj")
        there = SymBool(z3.Exists([k], z3.And(k >= 0, k < I(ln), lift(v.at(d, wrap(k)).name) == f[0](i.e))))
        listed = SymBool(z3.Exists([j], z3.And(j >= 0, j < I(q), lift(v.at(keys, wrap(j))) == f[0](i.e))))
        v.ensure(f"invert={invert}: listed variables", v.implies(listed, v.not_(there) if invert else there))
        v.ensure(f"invert={invert}: other variables", v.implies(v.not_(listed), there if invert else v.not_(there)))


@proof(P, [SP + "__add__"], assume=CALLEE)
def direct_sum(v):
    m = v.mod("search_space.search_space")
    n1, n2 = v.int("n1", 1), v.int("n2", 1)
    s1, *f1 = mkspace(v, m, "p", n1)
    s2, *f2 = mkspace(v, m, "q", n2)
    rec = record(v, m)
    s1 + s2
    v.ensure("dimension", v.eq(v.len(rec["data"]), n1 + n2))
    i, j = v.generic(n1), v.generic(n2)
    same(v, "left operand first", v.at(rec["data"], i), i, f1)
    same(v, "right operand second", v.at(rec["data"], j + n1), j, f2)


@proof(P, [SP + "__iadd__"], assume=CALLEE)
def direct_sum_in_place(v):
    m = v.mod("search_space.search_space")
    n1, n2 = v.int("n1", 1), v.int("n2", 1)
    s1, *f1 = mkspace(v, m, "p", n1)
    s2, *f2 = mkspace(v, m, "q", n2)
    rec = record(v, m)
    r = s1
    r += s2
    v.ensure("same object", r is s1)
    v.ensure("dimension", v.eq(v.len(rec["data"]), n1 + n2))
    i, j = v.generic(n1), v.generic(n2)
    same(v, "left operand first", v.at(rec["data"], i), i, f1)
    same(v, "right operand second", v.at(rec["data"], j + n1), j, f2)


def _difference(inplace):
    def body(v):
        m = v.mod("search_space.search_space")
        n1, n2 = v.int("n1", 1), v.int("n2", 1)
        s1, *f1 = mkspace(v, m, "p", n1)
        s2, *f2 = mkspace(v, m, "q", n2)
        rec = record(v, m)
        if inplace:
            s1 -= s2
        else:
            s1 - s2
        d, ln = rec["data"], v.len(rec["data"])
        i = v.generic(n1)
        k, j = z3.Int("w"), z3.Int("wj")
        there = SymBool(z3.Exists([k], z3.And(k >= 0, k < I(ln), lift(v.at(d, wrap(k)).name) == f1[0](i.e))))
        shared = SymBool(z3.Exists([j], z3.And(j >= 0, j < I(n2), f2[0](j) == f1[0](i.e))))
        v.ensure("variables also in the right operand are gone", v.implies(shared, v.not_(there)))
        v.ensure("all others are kept", v.implies(v.not_(shared), there))

    return body


proof(P, [SP + "__sub__"], name="difference", assume=CALLEE, timeout=40000)(_difference(False))
proof(P, [SP + "__isub__"], name="difference_in_place", assume=CALLEE, timeout=40000)(_difference(True))


@proof(P, [SP + "__mul__"], assume=CALLEE)
def replication(v):
    m = v.mod("search_space.search_space")
    n = v.int("n", 1)
    for N in (1, 2, 4):
        s, *f = mkspace(v, m, "s", n)
        rec = record(v, m)
        s * N
        v.ensure(f"x{N}: dimension", v.eq(v.len(rec["data"]), n * N))
        i = v.generic(n)
        for c in range(N):
            same(v, f"x{N}: copy {c}", v.at(rec["data"], i + n * c), i, f)


@proof(P, [SP + "pop", SP + "remove"], assume=CALLEE)
def removal(v):
    m = v.mod("search_space.search_space")
    n = v.int("n", 2)
    for op in ("pop", "remove"):
        s, *f = mkspace(v, m, "s", n)
        rec = record(v, m)
        k = v.int("k", 0)
        v.assume(k < n)
        r = getattr(s, op)(k)
        if op == "pop":
            same(v, "pop returns the variable", r, k, f)
        d = rec["data"]
        v.ensure(f"{op}: one less", v.eq(v.len(d), n - 1))
        i = v.generic(n - 1)
        same(v, f"{op}: the rest in order", v.at(d, i), wrap(z3.If(i.e < k.e, i.e, i.e + 1)), f)


class Chain:
    """itertools.chain on symbolic lists"""

    def __new__(cls, *parts):
        return cls.from_iterable(parts)

    @staticmethod
    def from_iterable(parts):
        parts = list(parts)
        return sum(parts[1:], parts[0])


@proof(P, [SP + "concat"], assume=CALLEE)
def concatenation(v):
    m = v.mod("search_space.search_space")
    n = [v.int("n1", 1), v.int("n2", 1), v.int("n3", 1)]
    for k in (2, 3):
        sp = [mkspace(v, m, f"{'pqr'[j]}{k}", n[j]) for j in range(k)]
        rec = record(v, m)
        if hasattr(m, "chain"):
            v.stub(m, "chain", Chain)
        r = m.SearchSpace.concat(*[q[0] for q in sp])
        v.ensure(f"{k}: dimension", v.eq(v.len(rec["data"]), sum(n[1:k], n[0])))
        off = 0
        for j in range(k):
            i = v.generic(n[j])
            same(v, f"{k}: part {j} at its place", v.at(rec["data"], i + off), i, sp[j][1:])
            off = off + n[j]
    s, *f = mkspace(v, m, "one", n[0])
    v.ensure("a single space is itself", m.SearchSpace.concat(s) is s)


@proof(P, [SP + "__setitem__"], assume=CALLEE)
def assignment(v):
    m = v.mod("search_space.search_space")
    n = v.int("n", 1)
    for how in ("position", "name", "positions", "names"):
        s, *f = mkspace(v, m, "s" + how, n)
        t, *g = mkspace(v, m, "t" + how, 1)
        rec = record(v, m)
        k = v.int("k" + how, 0)
        v.assume(k < n)
        new = v.at(t.data, 0)
        if how == "position":
            s[k] = new
        elif how == "name":
            s[SymObj(f[0](k.e))] = new
        elif how == "names":
            s[[SymObj(f[0](k.e))]] = [new]
        else:
            s[[k]] = [new]
        d = rec["data"]
        v.ensure(f"{how}: as many variables as before", v.eq(v.len(d), n))
        i = v.generic(n)
        same(v, f"{how}: the new variable at its place", v.at(d, k), 0, g)
        v.ensure(f"{how}: all others stay", v.implies(v.not_(v.eq(i, k)), v.eq(v.at(d, i).name, SymObj(f[0](i.e)))))


def mkvar(v, m, t, nm):
    K = getattr(m, t)
    x = object.__new__(K)
    if t in ("Real", "Integer"):
        mk = v.real if t == "Real" else v.int
        x.__dict__.update(name=nm, bounds=(mk(nm + "l"), mk(nm + "u")))
    else:
        x.__dict__.update(name=nm, bounds=("u", "w", "z"))
    return x


def inside(v, t, var, val):
    if t in ("Real", "Integer"):
        return v.and_(val >= var.bounds[0], val <= var.bounds[1])
    return val in var.bounds


VAR = "bayes_optim.search_space.variable."


@proof(P, [VAR + "Real.__contains__", VAR + "Integer.__contains__", VAR + "_Discrete.__contains__"])
def membership_of_values(v):
    m = v.mod("search_space.variable")
    for t in ("Real", "Integer"):
        x = mkvar(v, m, t, "x" + t)
        for val in (v.real("r" + t), v.int("i" + t)):
            v.ensure(f"{t}: inside exactly from bound to bound", v.eq(x.__contains__(val), inside(v, t, x, val)))
    d = mkvar(v, m, "Discrete", "d")
    for val, want in (("u", True), ("w", True), ("z", True), ("y", False), (1, False)):
        v.ensure("a level or not", bool(d.__contains__(val)) == want)


def _points(ts, level):
    def body(v):
        m, vm = v.mod("search_space.search_space"), v.mod("search_space.variable")
        data = [mkvar(v, vm, t, f"v{i}") for i, t in enumerate(ts)]
        s = object.__new__(m.SearchSpace)
        s.__dict__.update(data=data, dim=len(ts), _var_name=[x.name for x in data], _random_seed=None, structure=[])
        v.stub(m.SearchSpace, "__getitem__", lambda self, i, data=data: data[i] if not isinstance(i, str) else data[[x.name for x in data].index(i)])
        pt = [v.real(v.c.name("r")) if t == "Real" else v.int(v.c.name("i")) if t == "Integer" else level for t in ts]
        want = v.and_(*[inside(v, t, x, p) for t, x, p in zip(ts, data, pt)])
        v.ensure("a point is inside exactly when every value is", v.eq(s.__contains__(pt), want))
        v.ensure("also by name, in any order", v.eq(s.__contains__({x.name: p for x, p in list(zip(data, pt))[::-1]}), want))
        v.ensure("names", all(s.__contains__(x.name) for x in data) and not s.__contains__("other"))

    return body


for ts_, lv_ in ((("Real",), None), (("Real", "Integer"), None), (("Integer", "Discrete"), "w"), (("Discrete", "Real"), "y"), (("Discrete", "Real", "Integer"), "z")):
    proof(P, [SP + "__contains__"], name="membership_" + "_".join(ts_) + ("" if lv_ != "y" else "_not_a_level"),
          assume=["lookup by position and name (proved: slices; bounded: operation_histories)"])(_points(ts_, lv_))


ROUND = z3.Function("rounded", INT, REAL, REAL)
LIN = z3.Function("linear", INT, REAL, REAL)


def _columns(op, F):
    def body(v):
        m, vm = v.mod("search_space.search_space"), v.mod("search_space.variable")
        for real_only in (True, False):
            ts = ("Real", "Real", "Real") if real_only else ("Integer", "Real", "Discrete", "Real")
            n = v.int(v.c.name("n"), 1)

            class Col:
                def __init__(self, k):
                    self.k = z3.IntVal(k)

                def ap(self, x):
                    return SymArray._make(x.shape, lambda i, f=x._snapshot(): F(self.k, core.coerce(f(i), "f")), "f")

                round = to_linear_scale = ap

            K = m.RealSpace if real_only else m.SearchSpace
            s = object.__new__(K)
            ids = [i for i, t in enumerate(ts) if t == "Real"]
            s.__dict__.update(data=[Col(i) for i in range(len(ts))], dim=len(ts), real_id=np.array(ids))
            if not real_only:
                sub = object.__new__(m.RealSpace)
                sub.__dict__.update(data=[s.data[i] for i in ids], dim=len(ids))
                v.stub(m.SearchSpace, "__getitem__", lambda self, i, sub=sub: sub)
            X = v.array(v.c.name("X"), (n, len(ts)), "f")
            X0 = X.copy()
            r = getattr(s, op)(X)
            v.ensure("shape", v.and_(v.eq(r.shape[0], n), v.eq(r.shape[1], len(ts))))
            i = v.generic(n)
            for j, t in enumerate(ts):
                x = v.at(X0, i, j)
                v.ensure(f"column {j} of {len(ts)}", v.eq(v.at(r, i, j), wrap(F(z3.IntVal(j), lift(x))) if t == "Real" else x))

    return body


for op_, F_ in (("round", ROUND), ("to_linear_scale", LIN)):
    proof(P, [SP + op_, "bayes_optim.search_space.search_space.RealSpace." + op_], name=f"{op_}_by_column",
          assume=["slices (proved: slice_by_indices)", "each variable's own rounding and scale (C01, C17)"])(_columns(op_, F_))


# ---------------------------------------------------------------- bounded: histories of operations on the real class
def _describe(sp):
    return [(type(x).__name__, x.name, tuple(x.bounds), getattr(x, "step", None), getattr(x, "precision", None), getattr(x, "scale", None)) for x in sp.data]


def _consistent(b, sp, hist):
    """the space's own description of itself agrees with its variables"""
    d = sp.data
    n = len(d)
    inp = dict(history=hist, space=str(sp))
    b.check(sp.dim == n == len(sp) and len(list(sp)) == n, "dimension", **inp)
    b.check(list(sp.var_name) == [x.name for x in d], "variable names out of step with the variables", **inp)
    b.check(len(set(sp.var_name)) == n, "variable names are not unique", names=list(sp.var_name), **inp)
    b.check(list(sp.bounds) == [x.bounds for x in d], "bounds out of step with the variables", **inp)
    tt = [type(x).__name__ for x in d]
    b.check(list(sp.var_type) == tt, "types out of step with the variables", **inp)
    if n:
        for t in TYPES:
            want = [i for i, x in enumerate(tt) if x == t]
            b.check(list(getattr(sp, t.lower() + "_id")) == want, f"index list of {t} variables", **inp)
            b.check(list(np.nonzero(getattr(sp, t.lower() + "_mask"))[0]) == want, f"mask of {t} variables", **inp)
        cat = [i for i, x in enumerate(tt) if x in ("Discrete", "Ordinal", "Bool", "Subset")]
        b.check(sorted(sp.categorical_id) == cat, "index list of categorical variables", **inp)
        b.check(list(np.nonzero(sp.categorical_mask)[0]) == cat, "mask of categorical variables", **inp)
        b.check({int(k): tuple(x) for k, x in sp.levels.items()} == {i: tuple(d[i].bounds) for i in cat}, "levels of categorical variables", **inp)
        want = tt[0] + "Space" if len(set(tt)) == 1 else "SearchSpace"
        b.check(type(sp).__name__ == want, "class of the space", got=type(sp).__name__, want=want, **inp)
        for i, nm in enumerate(sp.var_name):
            b.check(sp[nm] is d[i] and sp[i] is d[i], "lookup by name or position", name=nm, **inp)


@bounded(P, [SP + x for x in ("__init__", "__getitem__", "__setitem__", "__add__", "__iadd__", "__sub__", "__isub__", "__mul__", "__imul__", "filter",
                              "concat", "pop", "remove", "update", "_check_data", "_set_data", "var_name")],
         n=3000, n_thorough=24000, bound="random spaces of 1-5 variables (shared and clashing names), histories of up to 8 operations", budget=60)
def operation_histories(b):
    import bayes_optim.search_space as S
    from contracts import gen

    def fresh(r):
        ss = gen.specs(r, kinds=[["Real", "Integer", "Discrete", "Bool", "Subset"], ["Real"], ["Integer"]][int(r.choice(3, p=[0.6, 0.2, 0.2]))])
        for s in ss:
            if r.rand() < 0.5:
                s["name"] = str(r.choice(["a", "b", "c", "x0", "x1", "x"]))
        names = [s["name"] for s in ss]
        return gen.space(ss, S), ss, names

    key = lambda t: (t[0],) + tuple(t[2:])
    for _ in b.loop():
        r = b.rng
        sp, ss, names = fresh(r)
        hist = [("new", [s["name"] for s in ss], [s["type"] for s in ss])]
        b.check([x[0] for x in _describe(sp)] == [s["type"] for s in ss] and [tuple(x[2]) for x in _describe(sp)] ==
                [tuple(gen.build(s, S).bounds) for s in ss], "construction keeps the variables in order", specs=ss)
        for n_, d_ in zip(names, sp.data):
            if names.count(n_) == 1:
                b.check(d_.name == n_, "a unique name was changed", names=names, got=sp.var_name)
        _consistent(b, sp, hist)
        for _k in range(int(r.randint(1, 9))):
            op = str(r.choice(["add", "iadd", "sub", "isub", "mul", "imul", "slice", "mask", "names", "int", "filter", "pop", "remove", "update", "set", "rename", "concat"]))
            if sp.dim > 14:
                op = str(r.choice(["slice", "pop", "remove", "sub"]))
            before = _describe(sp)
            n = sp.dim
            other = ob = None
            if op in ("add", "iadd", "sub", "isub", "update", "concat"):
                other, oss, _n = fresh(r)
                if op in ("sub", "isub", "update") and r.rand() < 0.7:
                    pick = [i for i in range(n) if r.rand() < 0.4]
                    if pick:
                        for i in pick[: other.dim]:
                            if before[i][1] not in other.var_name:
                                other.var_name = [before[i][1]] + list(other.var_name)[1:]
                ob = _describe(other)
            hist.append((op, sp.var_name[:], other and other.var_name[:]))
            inp = dict(history=hist, before=before, other=ob)
            if op in ("add", "concat"):
                res = sp + other if op == "add" else S.SearchSpace.concat(sp, other)
                want = [key(t) for t in before + ob]
                b.check([key(t) for t in _describe(res)] == want, "sum: variables of the left operand, then of the right one", got=_describe(res), **inp)
                for t, w in zip(_describe(res), before + ob):
                    if [x[1] for x in before + ob].count(w[1]) == 1:
                        b.check(t[1] == w[1], "sum: a name that is unique was changed", got=_describe(res), **inp)
                b.check(_describe(sp) == before and _describe(other) == ob, "sum: an operand was changed", **inp)
            elif op == "iadd":
                res = sp
                res += other
                b.check([key(t) for t in _describe(res)] == [key(t) for t in before + ob], "in-place sum", got=_describe(res), **inp)
                b.check(_describe(other) == ob, "in-place sum: the right operand was changed", **inp)
            elif op in ("sub", "isub"):
                keep = [t for t in before if t[1] not in [o[1] for o in ob]]
                if not keep:
                    hist.pop()
                    continue
                if op == "sub":
                    res = sp - other
                    b.check(_describe(sp) == before, "difference: the left operand was changed", **inp)
                else:
                    res = sp
                    res -= other
                b.check(_describe(res) == keep, "difference: exactly the variables not named by the right operand, in order", got=_describe(res), **inp)
                b.check(_describe(other) == ob, "difference: the right operand was changed", **inp)
            elif op in ("mul", "imul"):
                N = int(r.choice([1, 2, 3]))
                if op == "mul":
                    res = sp * N if r.rand() < 0.5 else N * sp
                    b.check(_describe(sp) == before, "replication: the operand was changed", N=N, **inp)
                else:
                    res = sp
                    res *= N
                b.check([key(t) for t in _describe(res)] == [key(t) for t in before] * N, "replication: N copies", N=N, got=_describe(res), **inp)
            elif op in ("slice", "mask", "names", "int", "filter"):
                if op == "slice":
                    a, z = sorted(int(x) for x in r.choice(n + 1, 2))
                    if a == z:
                        a, z = 0, n
                    idx, res = list(range(a, z)), sp[a:z]
                elif op == "mask":
                    mk = r.rand(n) < 0.6
                    if not mk.any():
                        mk[0] = True
                    idx, res = list(np.nonzero(mk)[0]), sp[mk if r.rand() < 0.5 else list(map(bool, mk))]
                elif op == "int":
                    idx = [int(x) for x in r.permutation(n)[: int(r.randint(1, n + 1))]]
                    res = sp[idx if r.rand() < 0.5 else np.array(idx)]
                else:
                    idx = sorted(int(x) for x in r.permutation(n)[: int(r.randint(1, n + 1))])
                    nm = [sp.var_name[i] for i in idx]
                    if op == "names":
                        res = sp[nm]
                    else:
                        inv = bool(r.rand() < 0.4) and len(idx) < n
                        res = sp.filter(nm + ["no_such_name"], invert=inv)
                        idx = [i for i in range(n) if (i in idx) != inv]
                b.check(_describe(res) == [before[i] for i in idx], f"{op}: the selected variables in the given order", idx=idx, got=_describe(res), **inp)
                b.check(_describe(sp) == before, f"{op}: the space itself was changed", **inp)
                _consistent(b, sp, hist)
                if r.rand() < 0.5:
                    continue
            elif op in ("pop", "remove"):
                if n < 2:
                    hist.pop()
                    continue
                i = int(r.randint(n))
                if op == "pop":
                    var = sp.pop(i) if r.rand() < 0.7 else sp.pop(i - n)
                    b.check(var.name == before[i][1], "pop returns another variable", i=i, **inp)
                    res = sp
                else:
                    res = sp.remove(i if r.rand() < 0.5 else before[i][1])
                    b.check(res is sp, "remove works in place", **inp)
                b.check(_describe(res) == before[:i] + before[i + 1:], f"{op}: removes exactly one variable", i=i, got=_describe(res), **inp)
            elif op == "update":
                res = sp.update(other)
                byname = {t[1]: t for t in ob}
                want = [byname.get(t[1], t) for t in before] + [t for t in ob if t[1] not in [x[1] for x in before]]
                b.check(_describe(res) == want, "update: replace by name, append the new ones", got=_describe(res), want=want, **inp)
                b.check(_describe(other) == ob, "update: the argument was changed", **inp)
            elif op == "set":
                i = int(r.randint(n))
                s = gen.specs(r, 1)[0]
                s["name"] = f"new{len(hist)}_{int(r.randint(1e6))}"
                how = int(r.choice(3))
                if how == 0:
                    sp[i] = gen.build(s, S)
                elif how == 1:
                    sp[before[i][1]] = gen.build(s, S)
                else:
                    sp[[i]] = [gen.build(s, S)]
                res = sp
                got = _describe(res)
                b.check(got[:i] + got[i + 1:] == before[:i] + before[i + 1:] and got[i][:2] == (s["type"], s["name"]), "assignment replaces one variable", i=i, got=got, **inp)
            else:
                new = [f"n{i}" for i in r.permutation(n)]
                if r.rand() < 0.3:
                    sp.var_name = "z"
                    new = [f"z{i}" for i in range(n)]
                else:
                    sp.var_name = new
                res = sp
                b.check([t[1] for t in _describe(res)] == new and [key(t) for t in _describe(res)] == [key(t) for t in before], "renaming", got=_describe(res), **inp)
            sp = res
            _consistent(b, sp, hist)


@bounded(P, [SP + "__contains__", SP + "__eq__", SP + "round", SP + "to_linear_scale", SP + "__setitem__", "bayes_optim.search_space.variable.Variable.__eq__", "bayes_optim.search_space.variable.Real.__contains__", "bayes_optim.search_space.variable.Integer.__contains__", "bayes_optim.search_space.variable._Discrete.__contains__", "bayes_optim.search_space.variable.Real.round", "bayes_optim.search_space.variable.Real.to_linear_scale", "bayes_optim.search_space.variable.Real.scale"],
         n=3000, n_thorough=24000, budget=40, bound="random mixed spaces of 1-6 variables; points inside, and outside in one coordinate")
def membership_and_comparison(b):
    import math

    import bayes_optim.search_space as S
    from contracts import gen

    r = b.rng

    def inside(s):
        t, bd = s["type"], s["bounds"]
        if t == "Real":
            x = r.choice([bd[0], bd[1], r.uniform(*bd)])
            return float(x) if s["precision"] is None else float(min(max(round(float(x), s["precision"]), bd[0]), bd[1]))
        if t == "Integer":
            return int(r.choice(range(bd[0], bd[1] + 1, s["step"])))
        if t == "Bool":
            return bool(r.randint(2))
        lv = sorted(gen.subset_levels(bd), key=str) if t == "Subset" else list(bd)
        return lv[int(r.randint(len(lv)))]

    def outside(s):
        t, bd = s["type"], s["bounds"]
        w = max(1.0, abs(bd[0]), abs(bd[1])) if t == "Real" else 1
        if t == "Real":
            return float(r.choice([bd[0] - 1e-6 * w, bd[1] + 1e-6 * w, bd[1] + 3 * w, bd[0] - 3 * w]))
        if t == "Integer":
            return int(r.choice([bd[0] - 1, bd[1] + 1, bd[1] + s["step"], bd[0] - s["step"]]))
        return "no such level" if t != "Subset" else ("no such level",)

    for case in b.loop():
        ss = gen.specs(r, hi=6)
        sp = gen.space(ss, S)
        d = len(ss)
        p = [inside(s) for s in ss]
        inp = dict(specs=ss, point=p)
        for j, s in enumerate(ss):
            b.check(p[j] in sp[j], "a value of the domain is not a member", value=p[j], spec=s)
            q = outside(s)
            b.check(q not in sp[j], "a value outside of the domain is a member", value=q, spec=s)
        names = [s["name"] for s in ss]
        b.check(p in sp and dict(zip(names, p)) in sp, "a point of the domain is not in the space", **inp)
        j = int(r.randint(d))
        q = list(p)
        q[j] = outside(ss[j])
        b.check(q not in sp and dict(zip(names, q)) not in sp, "a point outside of the domain is in the space", outside=q, **inp)
        b.check(all(n in sp for n in names) and "no such name" not in sp, "membership of names", **inp)
        # variables and spaces
        same = [gen.build(s, S) for s in ss]
        b.check(all(v in sp for v in same), "a variable of the space is not found", **inp)
        alt = dict(ss[j])
        how = int(r.randint(3))
        if how == 0:
            alt["name"] = "no such name"
        elif how == 1 and alt["type"] == "Real":
            alt["bounds"] = [alt["bounds"][0], alt["bounds"][0] + (alt["bounds"][1] - alt["bounds"][0]) / 2]
        elif how == 1 and alt["type"] == "Integer":
            alt["bounds"] = [alt["bounds"][0], alt["bounds"][1] + 1]
        elif how == 1 and alt["type"] in ("Discrete", "Ordinal", "Subset"):
            alt["bounds"] = list(alt["bounds"]) + (["another"] if isinstance(alt["bounds"][0], str) else [9999])
        else:
            alt = dict(gen.MAKERS["Real" if alt["type"] != "Real" else "Integer"](r), name=alt["name"])
        other = gen.build(alt, S)
        b.check(other not in sp, "a different variable is found in the space", other=alt, **inp)
        b.check(not (other == sp[j]) and sp[j] == same[j], "comparison of variables", other=alt, **inp)
        perm = [int(k) for k in r.permutation(d)]
        b.check(S.SearchSpace([same[k] for k in perm]) == sp and not (S.SearchSpace([same[k] for k in perm]) != sp), "spaces with equal variables differ", **inp)
        ch = [gen.build(s, S) for s in ss]
        ch[j] = other
        b.check(S.SearchSpace(ch) != sp and not (S.SearchSpace(ch) == sp), "different spaces are equal", other=alt, **inp)
        if d > 1:
            sub = S.SearchSpace([gen.build(s, S) for s in ss[1:]])
            b.check(sub in sp and sub != sp and not (sp in sub), "membership of a subspace", **inp)
            b.check(S.SearchSpace(ch) not in sp, "a space with a different variable is a subspace", other=alt, **inp)
        # rounding and scales
        n = int(r.randint(1, 4))
        X = np.empty((n, d), dtype=object)
        for i in range(n):
            X[i] = [float(r.uniform(s["bounds"][0], s["bounds"][1])) if s["type"] == "Real" else inside(s) for s in ss]
        R = sp.round(X.copy() if r.rand() < 0.5 or n == 1 or any(s["type"] == "Subset" for s in ss) else X.tolist())
        for i in range(n):
            for j, s in enumerate(ss):
                e = X[i, j]
                if s["type"] == "Real" and s["precision"] is not None:
                    e = float(min(max(np.round(e, s["precision"]), s["bounds"][0]), s["bounds"][1]))
                b.check(R[i][j] == e, "rounding", row=i, column=j, got=R[i][j], expected=e, **inp)
        Y = X.copy()
        for i in range(n):
            for j, s in enumerate(ss):
                if s["type"] == "Real":
                    x = X[i, j]
                    Y[i, j] = {"linear": lambda: x, "log": lambda: math.log(x), "log10": lambda: math.log10(x), "logit": lambda: math.log(x / (1 - x)), "bilog": lambda: math.copysign(math.log(1 + abs(x)), x)}[s["scale"]]()
        L = sp.to_linear_scale(Y.copy())
        for i in range(n):
            for j, s in enumerate(ss):
                ok = abs(L[i][j] - X[i, j]) <= 1e-9 * max(1, abs(X[i, j])) if s["type"] == "Real" else L[i][j] == X[i, j]
                b.check(ok, "back from the scale of a variable", row=i, column=j, got=L[i][j], expected=X[i, j], **inp)
        # bounds outside the working range of a scale are cut
        sc = str(r.choice(["log", "log10"]))
        ub = float(10 ** r.uniform(-2, 2))
        v = S.Real([float(-r.uniform(0, 2)), ub], scale=sc, name="cut")
        b.check(0 < v.bounds[0] < v.bounds[1] == ub, "bounds outside the working range of the scale", scale=sc, bounds=v.bounds)
        x = np.asarray(S.SearchSpace([v]).sample(3), dtype=float)
        b.check(np.all(x > 0) and np.all(x <= ub * (1 + 1e-9)), "samples of a variable with cut bounds", scale=sc, ub=ub, got=x.tolist())
        # assignment to several variables
        k = [int(q) for q in r.permutation(d)[: int(r.randint(1, d + 1))]]
        new = [dict(gen.specs(r, 1)[0], name=f"fresh{i}") for i in range(len(k))]
        t = gen.space(ss, S)
        t[[names[i] for i in k] if r.rand() < 0.5 else k] = [gen.build(s, S) for s in new]
        want = list(ss)
        for i, s in zip(k, new):
            want[i] = s
        b.check([v.name for v in t.data] == [s["name"] for s in want] and all(v == gen.build(s, S) for v, s in zip(t.data, want)), "assignment to several variables", positions=k, **inp)
