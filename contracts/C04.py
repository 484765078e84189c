"""C04 solutions: however a set of solutions is built, sliced, joined or converted, every row keeps its own
values, objective value(s), evaluation count and label, and every value stays under its variable's name."""
import numpy as np

from pyvc.verify import *

P = "C04"
SO = "bayes_optim.solution.Solution."


def mk(v, m, nm, n, d, k=1, names=None):
    """n solutions of d variables with k objectives; row i has values X(i,.), fitness F(i[,o]), count E(i), label L(i)"""
    X = v.array(nm + "X", (n, d), "O")
    F = v.array(nm + "F", (n,) if k == 1 else (n, k))
    E = v.array(nm + "E", (n,), "i")
    Lb = v.seq(nm + "L", n, "U")
    names = v.seq(nm + "V", d, "U") if names is None else names
    s = m.Solution(X, fitness=F, n_eval=E, index=Lb, var_name=names, n_obj=k)
    return s, dict(X=X.copy(), F=F.copy(), E=E.copy(), L=Lb, V=names, k=k)


def row_is(v, tag, s, i, src, j, d):
    """row i of s is row j of src, with all attributes"""
    c = v.generic(d)
    v.ensure(f"{tag}: values", v.eq(v.at(s, i, c), v.at(src["X"], j, c)))
    if src["k"] == 1:
        v.ensure(f"{tag}: fitness", v.eq(v.at(s.fitness, i), v.at(src["F"], j)))
    else:
        for o in range(src["k"]):
            v.ensure(f"{tag}: fitness {o}", v.eq(v.at(s.fitness, i, o), v.at(src["F"], j, o)))
    v.ensure(f"{tag}: evaluation count", v.eq(v.at(s.n_eval, i), v.at(src["E"], j)))
    v.ensure(f"{tag}: label", v.eq(v.at(s.index, i), v.at(src["L"], j)))
    v.ensure(f"{tag}: variable names", v.eq(v.at(s.var_name, c), v.at(src["V"], c)))


def lens(v, tag, s, n):
    for nm, a in (("values", s), ("fitness", s.fitness), ("counts", s.n_eval), ("labels", s.index)):
        v.ensure(f"{tag}: number of {nm}", v.eq(a.shape[0], n))


def _k(fn):
    for k in (1, 2):
        proof(P, fn.targets, name=f"{fn.__name__}_{k}obj", timeout=15000)(lambda v, k=k: fn(v, k))


def t(*names):
    def deco(fn):
        fn.targets = [SO + x for x in names]
        _k(fn)
        return fn

    return deco


@t("__new__", "__array_finalize__", "__setattr__")
def construct(v, k):
    m = v.mod("solution")
    n, d = v.int("n", 1), v.int("d", 1)
    s, src = mk(v, m, "a", n, d, k)
    lens(v, "new", s, n)
    i = v.generic(n)
    row_is(v, "new", s, i, src, i, d)


@t("__getitem__", "__array_finalize__")
def select_indices(v, k):
    m = v.mod("solution")
    n, d, q = v.int("n", 1), v.int("d", 1), v.int("q", 1)
    s, src = mk(v, m, "a", n, d, k)
    idx = v.array("idx", q, "i")
    v.assume(v.forall(q, lambda j: v.and_(v.at(idx, j) >= 0, v.at(idx, j) < n)))
    r = s[idx]
    lens(v, "selection", r, q)
    i = v.generic(q)
    row_is(v, "selection", r, i, src, v.at(idx, i), d)


@t("__getitem__", "__array_finalize__")
def select_slice(v, k):
    m = v.mod("solution")
    n, d, a, b = v.int("n", 1), v.int("d", 1), v.int("a", 0), v.int("b", 0)
    v.assume(v.and_(a <= b, b <= n))
    s, src = mk(v, m, "a", n, d, k)
    r = s[a:b]
    lens(v, "slice", r, b - a)
    i = v.generic(b - a)
    row_is(v, "slice", r, i, src, i + a, d)


@t("__getitem__", "__array_finalize__")
def select_mask(v, k):
    m = v.mod("solution")
    n, d = v.int("n", 1), v.int("d", 1)
    s, src = mk(v, m, "a", n, d, k)
    mask = v.array("mask", n, "b")
    r = s[mask]
    i = v.generic(r.shape[0])
    # the same selection on the row numbers tells which source row a result row must be
    rows = v.mod("utils.utils").np.arange(n)[mask]
    lens(v, "mask", r, rows.shape[0])
    v.ensure("only selected rows", v.at(mask, v.at(rows, i)))
    row_is(v, "mask", r, i, src, v.at(rows, i), d)


@t("__getitem__", "__array_finalize__")
def select_row(v, k):
    m = v.mod("solution")
    n, d, j = v.int("n", 1), v.int("d", 1), v.int("j", 0)
    v.assume(j < n)
    s, src = mk(v, m, "a", n, d, k)
    r = s[j]
    c = v.generic(d)
    v.ensure("values", v.eq(v.at(r, c), v.at(src["X"], j, c)))
    for o in range(k):
        v.ensure(f"fitness {o}", v.eq(v.at(r.fitness, o), v.at(src["F"], j) if k == 1 else v.at(src["F"], j, o)))
    v.ensure("count", v.eq(v.at(r.n_eval, 0), v.at(src["E"], j)))
    v.ensure("label", v.eq(v.at(r.index, 0), v.at(src["L"], j)))
    v.ensure("names", v.eq(v.at(r.var_name, c), v.at(src["V"], c)))


@t("__add__", "__new__")
def join(v, k):
    m = v.mod("solution")
    n1, n2 = v.int("n1", 1), v.int("n2", 1)
    d = 3
    names = ["p", "q", "r"]
    s1, a = mk(v, m, "a", n1, d, k, names)
    s2, b = mk(v, m, "b", n2, d, k, names)
    r = s1 + s2
    lens(v, "join", r, n1 + n2)
    i, j = v.generic(n1), v.generic(n2)
    row_is(v, "left rows first", r, i, a, i, d)
    row_is(v, "right rows second", r, j + n1, b, j, d)


@t("__iadd__", "__add__")
def join_in_place(v, k):
    """s += t: the joined rows, and the operands keep theirs"""
    m = v.mod("solution")
    n1, n2 = v.int("n1", 1), v.int("n2", 1)
    s1, a = mk(v, m, "a", n1, 2, k, ["p", "q"])
    s2, b = mk(v, m, "b", n2, 2, k, ["p", "q"])
    r = s1
    r += s2
    lens(v, "join", r, n1 + n2)
    i, j = v.generic(n1), v.generic(n2)
    row_is(v, "left rows first", r, i, a, i, 2)
    row_is(v, "right rows second", r, j + n1, b, j, 2)
    row_is(v, "the right operand", s2, j, b, j, 2)


@t("__add__")
def join_by_name(v, k):
    """columns of the right operand are matched by name"""
    m = v.mod("solution")
    n1, n2 = v.int("n1", 1), v.int("n2", 1)
    s1, a = mk(v, m, "a", n1, 3, k, ["p", "q", "r"])
    s2, b = mk(v, m, "b", n2, 3, k, ["r", "p", "q"])
    r = s1 + s2
    j = v.generic(n2)
    for c, o in ((0, 1), (1, 2), (2, 0)):
        v.ensure(f"column {c}", v.eq(v.at(r, j + n1, c), v.at(b["X"], j, o)))
        v.ensure(f"name {c}", v.eq(v.at(r.var_name, c), ["p", "q", "r"][c]))


@t("__setattr__", "__getitem__")
def write_through(v, k):
    """assigning an attribute of a selection by slice changes exactly those rows of the original"""
    m = v.mod("solution")
    n, d, a, b = v.int("n", 1), v.int("d", 1), v.int("a", 0), v.int("b", 0)
    v.assume(v.and_(a < b, b <= n))
    s, src = mk(v, m, "a", n, d, k)
    F = v.array("newF", (b - a,) if k == 1 else (b - a, k))
    s[a:b].fitness = F
    i = v.generic(n)
    for o in range(k):
        new = v.at(F, i - a) if k == 1 else v.at(F, i - a, o)
        old = v.at(src["F"], i) if k == 1 else v.at(src["F"], i, o)
        got = v.at(s.fitness, i) if k == 1 else v.at(s.fitness, i, o)
        inside = v.and_(i >= a, i < b)
        v.ensure(f"selected rows take the new value {o}", v.implies(inside, v.eq(got, new)))
        v.ensure(f"other rows keep theirs {o}", v.implies(v.not_(inside), v.eq(got, old)))
    E, Lb = v.array("newE", (b - a,), "i"), v.array("newL", (b - a,), "U")
    s[a:b].n_eval = E
    s[a:b].index = Lb
    for nm, got, new, old in (("count", s.n_eval, E, src["E"]), ("label", s.index, Lb, src["L"])):
        v.ensure(f"selected rows take the new {nm}", v.implies(inside, v.eq(v.at(got, i), v.at(new, i - a))))
        v.ensure(f"other rows keep their {nm}", v.implies(v.not_(inside), v.eq(v.at(got, i), v.at(old, i))))


@t("to_dict")
def as_dicts(v, k):
    m = v.mod("solution")
    n = v.int("n", 1)
    names = ["p", "q", "r"]
    s, src = mk(v, m, "a", n, 3, k, names)
    r = s.to_dict()
    v.ensure("one dictionary per row", v.eq(v.len(r), n))
    i = v.generic(n)
    e = v.at(r, i)
    v.ensure("keys", list(e) == names)
    for c, nm in enumerate(names):
        v.ensure(f"value of {nm}", v.eq(e[nm], v.at(src["X"], i, c)))


@t("from_dict")
def from_dicts(v, k):
    m = v.mod("solution")
    a, b, c = v.real("a"), v.real("b"), v.str("c")
    for order in ((0, 1, 2), (2, 0, 1)):
        vals = [("p", a), ("q", b), ("r", c)]
        D = dict(vals[o] for o in order)
        for vn in (None, ["r", "p", "q"]):
            s = m.Solution.from_dict([D, D], var_name=vn, n_obj=k)
            want = list(D) if vn is None else vn
            for j, nm in enumerate(want):
                v.ensure(f"{order} {vn} name", v.eq(v.at(s.var_name, j), nm))
                v.ensure(f"{order} {vn} value", v.and_(v.eq(v.at(s, 0, j), dict(vals)[nm]), v.eq(v.at(s, 1, j), dict(vals)[nm])))


@proof(P, [SO + "__mul__", SO + "__rmul__", SO + "__getitem__"])
def replicate(v):
    """N copies of one row"""
    m = v.mod("solution")
    n, d = v.int("n", 1), v.int("d", 1)
    j = v.int("j", 0)
    v.assume(j < n)
    s, src = mk(v, m, "a", n, d, 1)
    c = v.generic(d)
    for side, r in (("right", s[j] * 3), ("left", 3 * s[j])):
        for i in range(3):
            v.ensure(f"{side}: row {i} values", v.eq(v.at(r, i, c), v.at(src["X"], j, c)))
            v.ensure(f"{side}: row {i} fitness", v.eq(v.at(r.fitness, i), v.at(src["F"], j)))
            v.ensure(f"{side}: row {i} count", v.eq(v.at(r.n_eval, i), v.at(src["E"], j)))


# ------------------------------------------------------------------ operation histories on the real class
class Model:
    """rows = [(values, fitness, n_eval, label)], independent of numpy"""

    def __init__(self, rows, names, k):
        self.rows, self.names, self.k = rows, names, k


def _agree(b, s, md, op):
    def lst(x):
        return np.asarray(x).tolist()

    want_f = [list(r[1]) if md.k > 1 else r[1][0] for r in md.rows]
    b.check(np.asarray(s).tolist() == [list(r[0]) for r in md.rows], f"{op}: values moved", got=np.asarray(s).tolist(), want=[r[0] for r in md.rows])
    b.check(lst(s.fitness) == want_f, f"{op}: objective values are not those of the rows", got=lst(s.fitness), want=want_f)
    b.check(lst(s.n_eval) == [r[2] for r in md.rows], f"{op}: evaluation counts are not those of the rows", got=lst(s.n_eval), want=[r[2] for r in md.rows])
    b.check(lst(s.index) == [r[3] for r in md.rows], f"{op}: labels are not those of the rows", got=lst(s.index), want=[r[3] for r in md.rows])
    b.check(list(s.var_name) == md.names, f"{op}: variable names", got=list(s.var_name), want=md.names)
    b.check(s.N == len(md.rows) and s.dim == len(md.names) and s.n_obj == md.k, f"{op}: sizes", got=(s.N, s.dim, s.n_obj))


@bounded(P, [SO + x for x in ("__new__", "__getitem__", "__add__", "__iadd__", "__mul__", "__rmul__", "__setattr__", "unique", "to_dict", "from_dict", "to_csv", "to_list")],
         n=15000, n_thorough=120000, bound="histories of up to 12 operations on sets of 1-6 solutions, 1-5 mixed variables, 1-3 objectives")
def operation_histories(b):
    import csv
    import os

    from bayes_optim.solution import Solution

    r = b.py
    uid = [0]

    def val(nm):
        uid[0] += 1
        return {"f": lambda: round(r.uniform(-9, 9), 6), "i": lambda: r.randint(-50, 50), "s": lambda: r.choice(["A", "B", "C, D", "x y"]).replace(",", ";"),
                "b": lambda: r.random() < 0.5}[nm[0]]()

    def fresh(names, k, n):
        rows = []
        for _ in range(n):
            uid[0] += 1
            rows.append(([val(nm) for nm in names], [round(r.uniform(-5, 5), 6) for _ in range(k)], r.randint(0, 9), f"L{uid[0]:05d}"))
        return Model(rows, list(names), k)

    def make(md):
        f = [q[1] if md.k > 1 else q[1][0] for q in md.rows]
        return Solution([list(q[0]) for q in md.rows], fitness=f, n_eval=[q[2] for q in md.rows], index=[q[3] for q in md.rows],
                        var_name=list(md.names), n_obj=md.k)

    for _ in b.loop():
        k = r.choice([1, 1, 2, 3])
        names = [f"{r.choice('fisb')}{j}" for j in range(r.randint(1, 5))]
        md = fresh(names, k, r.randint(1, 6))
        s = make(md)
        _agree(b, s, md, "new")
        for _ in range(r.randint(1, 12)):
            n, d = len(md.rows), len(md.names)
            op = r.choice(["slice", "fancy", "mask", "add", "iadd", "cols", "col", "unique", "write", "row", "dict", "csv", "mul", "copy", "neg", "step"])
            if op == "slice":
                a, z = sorted(r.choices(range(n + 1), k=2))
                if a == z:
                    continue
                s, md = s[a:z], Model(md.rows[a:z], md.names, k)
            elif op == "step":
                st = r.choice([-1, 2, -2])
                s, md = s[::st], Model(md.rows[::st], md.names, k)
            elif op == "fancy":
                ix = [r.randrange(-n, n) for _ in range(r.randint(1, 6))]
                s, md = s[ix if r.random() < 0.5 else np.array(ix)], Model([md.rows[i] for i in ix], md.names, k)
            elif op == "mask":
                mk_ = [r.random() < 0.7 for _ in range(n)]
                if not any(mk_):
                    continue
                s, md = s[np.array(mk_)], Model([q for q, t_ in zip(md.rows, mk_) if t_], md.names, k)
            elif op in ("add", "iadd"):
                if n > 12:
                    continue
                other = fresh(md.names, k, r.randint(1, 3))
                perm = list(range(d))
                if r.random() < 0.5:
                    r.shuffle(perm)
                om = Model([([q[0][p] for p in perm],) + tuple(q[1:]) for q in other.rows], [md.names[p] for p in perm], k)
                so = make(om)
                if len(om.rows) == 1 and r.random() < 0.5:
                    so = so[0]
                if op == "add":
                    s2 = s + so
                    _agree(b, s, md, "left operand of +")
                    s = s2
                else:
                    s += so
                if np.asarray(so).ndim == 2:
                    _agree(b, so, om, "right operand of +")
                md = Model(md.rows + other.rows, md.names, k)
            elif op == "cols":
                cs = r.sample(range(d), r.randint(1, d))
                s, md = s[:, cs], Model([([q[0][c] for c in cs],) + tuple(q[1:]) for q in md.rows], [md.names[c] for c in cs], k)
            elif op == "col":
                c = r.randrange(-d, d)
                _agree(b, s[:, c], Model([([q[0][c]],) + tuple(q[1:]) for q in md.rows], [md.names[c]], k), "one column")
                continue
            elif op == "unique":
                seen, keep = set(), []
                for q in md.rows:
                    t_ = tuple(map(str, q[0]))
                    if t_ not in seen:
                        seen.add(t_)
                        keep.append(q)
                s, md = s.unique(), Model(keep, md.names, k)
            elif op == "write":
                a = r.randrange(n)
                nf = [round(r.uniform(-5, 5), 6) for _ in range(k)]
                ne = r.randint(10, 20)
                if r.random() < 0.5:
                    view = s[a]
                    view.fitness = nf if k > 1 else nf[0]
                    view.n_eval += ne
                else:
                    view = s[a : a + 1]
                    view.fitness = [nf] if k > 1 else nf
                    view.n_eval = [md.rows[a][2] + ne]
                # Python value semantics for the model
                q = md.rows[a]
                rows = list(md.rows)
                lab = q[3]
                if r.random() < 0.5:
                    lab = "W" + q[3][1:]
                    s[a : a + 1].index = [lab]
                rows[a] = (q[0], nf, q[2] + ne, lab)
                md = Model(rows, md.names, k)
            elif op in ("row", "neg"):
                a = r.randrange(n) if op == "row" else -r.randint(1, n)
                row, q = s[a], md.rows[a]
                b.check(row.tolist() == list(q[0]) and row.fitness.tolist() == list(q[1]) and row.n_eval.tolist() == [q[2]] and row.index.tolist() == [q[3]]
                        and list(row.var_name) == md.names, "a single row lost its attributes", row=a, got=(row.tolist(), row.fitness, row.n_eval, row.index), want=q)
                dd = row.to_dict()
                b.check(dd == dict(zip(md.names, q[0])), "a single row as dictionary", got=dd, want=q)
                continue
            elif op == "mul":
                a, c = r.randrange(n), r.randint(1, 4)
                t_ = s[a] * c if r.random() < 0.5 else c * s[a]
                q = md.rows[a]
                b.check(t_.tolist() == [list(q[0])] * c and np.atleast_2d(t_.fitness.T).T.tolist() == [list(q[1])] * c and t_.n_eval.tolist() == [q[2]] * c,
                        "replication changed the row", got=(t_.tolist(), t_.fitness, t_.n_eval), want=q)
                continue
            elif op == "dict":
                ds = s.to_dict()
                b.check(ds == [dict(zip(md.names, q[0])) for q in md.rows], "to_dict rows", got=ds)
                if len({q[3] for q in md.rows}) == n:
                    b.check(s.to_dict(with_index=True) == {q[3]: dict(zip(md.names, q[0])) for q in md.rows}, "to_dict by label")
                    b.check(s.to_dict(orient="var", with_index=True) == {nm: {q[3]: q[0][j] for q in md.rows} for j, nm in enumerate(md.names)}, "to_dict by variable and label")
                b.check(s.to_dict(orient="var") == {nm: [q[0][j] for q in md.rows] for j, nm in enumerate(md.names)}, "to_dict by variable")
                # dictionaries with shuffled keys come back under the same names
                for e in range(len(ds)):
                    it = list(ds[e].items())
                    r.shuffle(it)
                    ds[e] = dict(it)
                back = Solution.from_dict(ds, index=[q[3] for q in md.rows], var_name=md.names, fitness=s.fitness.tolist(), n_eval=s.n_eval.tolist(), n_obj=k)
                _agree(b, back, md, "from_dict(to_dict)")
                one = Solution.from_dict(ds[0])
                b.check(dict(zip(one.var_name, one.tolist())) == ds[0], "from_dict of one dictionary", got=one.tolist(), want=ds[0])
                continue
            elif op == "csv":
                s.to_csv("t.csv")
                got = list(csv.reader(open("t.csv")))
                fn = ["f"] if k == 1 else [f"f{j}" for j in range(k)]
                b.check(got[0] == [""] + md.names + ["n_eval"] + fn, "csv header", got=got[0])
                want = [[str(q[3])] + [str(x) for x in q[0]] + [str(q[2])] + [str(x) for x in q[1]] for q in md.rows]
                b.check(got[1:] == want, "csv rows", got=got[1:], want=want)
                os.remove("t.csv")
                continue
            elif op == "copy":
                s = s.copy()
            _agree(b, s, md, op)
