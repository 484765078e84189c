"""C16 conditional search spaces."""
import itertools

import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C16"
ND = "bayes_optim.search_space.node.Node."
SS = "bayes_optim.search_space.search_space.SearchSpace."
CB = "bayes_optim.extension.ConditionalBO."


# ------------------------------------------------------------------ run-time contracts
def _tree(r, depth=0, names=None):
    """(name, [(branch, subtree)])"""
    names = itertools.count() if names is None else names
    nm = f"v{next(names)}"
    kids = []
    if depth < 3 and r.random() < (0.95 if depth == 0 else 0.45):
        br = [f"{nm} == {k}" for k in range(r.randint(1, 3))]
        kids = [(r.choice(br), _tree(r, depth + 1, names)) for _ in range(r.randint(1, 4))]
    return nm, kids


def _flat(t):
    out = {}
    if t[1]:
        out[t[0]] = [{"name": c[0], "condition": b} for b, c in t[1]]
        for _, c in t[1]:
            out.update(_flat(c))
    return out


def _names(t):
    return [t[0]] + [n for _, c in t[1] for n in _names(c)]


def _paths(t):
    """the combinations of branches and the variables that are free on each"""
    if not t[1]:
        return [((), (t[0],))]
    out = []
    for br in dict.fromkeys(b for b, _ in t[1]):
        for item in itertools.product(*[_paths(c) for b, c in t[1] if b == br]):
            out.append(((br,) + tuple(k for p, _ in item for k in p), tuple(n for _, v in item for n in v)))
    return out


def _shape(node):
    return (node.name, [(b, _shape(c)) for b, c in zip(node.branches, node.children)])


@bounded(P, [ND + "from_dict", ND + "add_child_from_dict", ND + "to_dict", ND + "remove", ND + "deepcopy", ND + "get_all_name", ND + "get_all_path", ND + "add_child"], n=10000, n_thorough=100000, budget=60,
         bound="1-3 random trees of depth up to 4 with up to 4 children per node on shared or different branches, described in any order")
def trees(b):
    from bayes_optim.search_space.node import Node

    r = b.py
    for case in b.loop():
        names = itertools.count()
        ts = [t for t in (_tree(r, 0, names) for _ in range(r.randint(1, 3))) if t[1]]
        d = {}
        for t in ts:
            d.update(_flat(t))
        items = list(d.items())
        r.shuffle(items)
        d = dict(items)
        keep = repr(d)
        roots = Node.from_dict(d)
        info = dict(description=d)
        b.check(repr(d) == keep, "the description was changed", **info)
        got = {n.name: n for n in roots}
        b.check(len(got) == len(roots) and set(got) == {t[0] for t in ts}, "roots", got=sorted(got), **info)
        for t in ts:
            n = got[t[0]]
            b.check(_shape(n) == t, "the tree does not follow its description", got=_shape(n), **info)
            b.check(n.is_root and all(not c.is_root for c in n.children), "root marks", **info)
            b.check(n.get_all_name() == _names(t), "names of the tree", got=n.get_all_name(), **info)
            b.check(n.to_dict() == _flat(t), "description written back", got=n.to_dict(), **info)
            p = n.get_all_path()
            want = {tuple(sorted(k)): sorted(v) for k, v in _paths(t)}
            b.check({tuple(sorted(k)): sorted(v) for k, v in p.items()} == want and len(p) == len(want), "paths of the tree", got=p, want=_paths(t), **info)
            c = n.deepcopy()
            b.check(c is not n and _shape(c) == t, "copy", **info)
            if c.children:
                c.children.pop()
                c.branches[0] = "other"
                b.check(_shape(n) == t, "a change of the copy shows in the original", **info)
            drop = set(r.sample(_names(t), r.randint(0, len(_names(t)))))
            if r.random() < 0.5:
                drop.discard(t[0])
            inv = r.random() < 0.5
            gone = (lambda x: x not in drop) if inv else (lambda x: x in drop)

            def prune(t):
                return (t[0], [(br, prune(c)) for br, c in t[1] if not gone(c[0])])

            q = n.remove(list(drop), invert=inv)
            b.check((q is None) == gone(t[0]) and (q is None or _shape(q) == prune(t)), "remove", dropped=sorted(drop), invert=inv, got=q and _shape(q), **info)
            b.check(_shape(n) == t, "remove changed the original tree", **info)


def _space(r, S, form, roots=(1, 2), free=(0, 2)):
    """variables, {child: (parent, value)} and the space"""
    count = itertools.count()
    vs, cond = [], {}

    def dom(k):
        if k == "int":
            lo = r.randint(-3, 2)
            return (lambda n, **kw: S.Integer([lo, lo + r.randint(2, 4)], n, **kw)), [lo, lo + 1, lo + 2]
        if k == "cat":
            return (lambda n, **kw: S.Discrete(["A", "B", "it's"], n, **kw)), ["A", "B", "it's"]
        if k == "num":
            return (lambda n, **kw: S.Discrete([-1, 2, 0.5], n, **kw)), [-1, 2, 0.5]
        return (lambda n, **kw: S.Real([-5, 5], n, **kw)), [-1.5, 2.0, 0.25]

    def grow(parent, depth):
        n = f"v{next(count)}"
        k = r.choice(["int", "cat", "num", "real"])
        mk, vals = dom(k)
        vs.append((n, mk))
        if parent:
            cond[n] = parent
        if depth < 3 and r.random() < (1.0 if depth == 0 else 0.35):
            use = r.sample(vals, r.randint(1, 3))
            for _ in range(r.randint(1, 3)):
                grow((n, r.choice(use)), depth + 1)

    for _ in range(r.randint(*roots)):
        grow(None, 0)
    for _ in range(r.randint(*free)):
        n = f"f{next(count)}"
        vs.append((n, lambda n, **kw: S.Real([-5, 5], n, **kw)))
    r.shuffle(vs)
    text = lambda n: f"{cond[n][0]} == {cond[n][1]!r}"
    if form == "conditions":
        sp = S.SearchSpace([mk(n, conditions=text(n) if n in cond else None) for n, mk in vs])
    elif form == "dict":
        raise NotImplementedError
    else:
        st = {}
        for n in cond:
            st.setdefault(cond[n][0], []).append({"name": n, "condition": text(n)})
        sp = S.SearchSpace([mk(n) for n, mk in vs], structure=st)
    return sp, [n for n, _ in vs], cond


def _want_subspaces(names, cond):
    """{frozenset of assignments: set of free variables}"""
    cond = {n: c for n, c in cond.items() if n in names and c[0] in names}
    sel = {c[0] for c in cond.values()}

    def paths(n):
        if n not in sel:
            return [({}, {n})]
        out = []
        for val in {repr(c[1]): c[1] for m, c in cond.items() if c[0] == n}.values():
            kids = [m for m, c in cond.items() if c == (n, val)]
            for item in itertools.product(*[paths(m) for m in kids]):
                key, free = {n: val}, set()
                for k, f in item:
                    key.update(k)
                    free |= f
                out.append((key, free))
        return out

    roots = [n for n in names if n not in cond]
    out = []
    for item in itertools.product(*[paths(n) for n in roots]):
        key, free = {}, set()
        for k, f in item:
            key.update(k)
            free |= f
        out.append((key, free))
    return out


def _match(got, want):
    k1 = sorted((sorted((a, repr(c)) for a, c in key.items()), sorted(sp.var_name)) for key, sp in got)
    k2 = sorted((sorted((a, repr(c)) for a, c in key.items()), sorted(free)) for key, free in want)
    return k1 == k2


@bounded(P, [SS + "get_unconditional_subspace", SS + "_set_structure", SS + "__getitem__", SS + "filter", SS + "__sub__", SS + "__add__", SS + "concat", SS + "__iadd__", SS + "__isub__", SS + "pop", SS + "remove"], n=1500, n_thorough=40000, budget=80,
         bound="spaces with 1-3 condition trees of depth up to 4, integer, real and categorical selectors, positive and negative values, conditions given with the variables or as a structure, and up to 4 operations in a row")
def subspaces(b):
    import bayes_optim.search_space as S

    r = b.py
    for case in b.loop():
        sp, names, cond = _space(r, S, r.choice(["conditions", "structure"]))
        hist = []

        def check(what):
            info = dict(variables=names, conditions={n: f"{c[0]} == {c[1]!r}" for n, c in cond.items()}, history=hist)
            want = _want_subspaces(names, cond)
            got = sp.get_unconditional_subspace()
            b.check(_match(got, want), what, got=[(k, s.var_name) for k, s in got], want=want, **info)
            for key, s in got:
                for n in s.var_name:
                    b.check(type(s[n]) is type(sp[n]) and s[n].bounds == sp[n].bounds, "a variable of a subspace differs from the original", name=n, **info)
            ac = {n: c for n, c in cond.items() if n in names and c[0] in names}
            flat = [(c, n.name, br) for t in sp.structure for n in _walk(t) for c, br in zip([k.name for k in n.children], n.branches)]
            b.check(sorted((c, p) for c, p, _ in flat) == sorted((n, c[0]) for n, c in ac.items()), "the condition trees do not hold every conditional variable once, under its selector", got=flat, **info)

        check("unconditional subspaces")
        for _ in range(r.randint(0, 4)):
            if len(names) < 3:
                break
            op = r.choice(["filter", "drop", "sub", "isub", "pop", "remove", "add", "iadd", "index"])
            part = r.sample(names, r.randint(1, len(names) - 1))
            part = [n for n in names if n in part]
            rest = [n for n in names if n not in part]
            hist.append((op, part))
            if op == "filter":
                sp, names = sp.filter(part), part
            elif op == "index":
                sp, names = sp[[names.index(n) for n in part]], part
            elif op == "drop":
                sp, names = sp.filter(part, invert=True), rest
            elif op == "sub":
                sp, names = sp - sp.filter(part), rest
            elif op == "isub":
                sp -= sp.filter(part)
                names = rest
            elif op == "pop":
                hist[-1] = (op, names[-1])
                sp.pop()
                names = names[:-1]
            elif op == "remove":
                hist[-1] = (op, part[0])
                sp.remove(part[0])
                names = [n for n in names if n != part[0]]
            elif op == "add":  # split and join: the conditions between the parts are those the variables state
                other, on, oc = _space(r, S, r.choice(["conditions", "structure"]), roots=(1, 1), free=(0, 1))
                ren = {n: "w%d_%s" % (len(hist), n) for n in on}
                other, on, oc = _renamed(r, S, other, on, oc, ren)
                sp = sp + other if r.random() < 0.7 else S.SearchSpace.concat(sp, other)
                names, cond = names + on, {**cond, **oc}
            else:
                other, on, oc = _space(r, S, r.choice(["conditions", "structure"]), roots=(1, 1), free=(0, 1))
                ren = {n: "w%d_%s" % (len(hist), n) for n in on}
                other, on, oc = _renamed(r, S, other, on, oc, ren)
                sp += other
                names, cond = names + on, {**cond, **oc}
            # a condition whose selector is gone does not come back with it
            cond = {n: c for n, c in cond.items() if n in names and c[0] in names}
            check(f"unconditional subspaces after {op}")


def _renamed(r, S, sp, names, cond, ren):
    out, st, form = [], {}, r.choice(["conditions", "structure"])
    for n in names:
        v = sp[n]
        c = f"{ren[cond[n][0]]} == {cond[n][1]!r}" if n in cond else None
        if c and form == "structure":
            st.setdefault(ren[cond[n][0]], []).append({"name": ren[n], "condition": c})
            c = None
        out.append(type(v)(list(v.bounds), ren[n], conditions=c))
    return S.SearchSpace(out, structure=st or None), [ren[n] for n in names], {ren[n]: (ren[c[0]], c[1]) for n, c in cond.items()}


def _walk(t):
    yield t
    for c in t.children:
        yield from _walk(c)


@bounded(P, [SS + "get_unconditional_subspace"], n=3000, n_thorough=24000, budget=30, bound="conditions with the operators !=, <, >, <=, >= and conjunctions on integer selectors")
def unsupported_conditions(b):
    import bayes_optim.search_space as S

    r = b.py
    for case in b.loop():
        k = r.randint(-2, 3)
        c = r.choice([f"x != {k}", f"x < {k}", f"x > {k}", f"x <= {k}", f"x >= {k}", f"x == {k} and y == 1", f"x + 1 == {k} or x == 2"])
        sp = S.SearchSpace([S.Integer([-2, 3], "x"), S.Integer([0, 3], "y"), S.Real([0, 1], "z", conditions=c)])
        try:
            got = sp.get_unconditional_subspace()
        except Exception:
            continue
        ok = all(eval(c, {"__builtins__": {}}, {"y": 1, **key}) for key, s in got if "z" in s.var_name)
        b.check(ok, "a variable is in a subspace in which its condition does not hold", condition=c, got=[(k_, s.var_name) for k_, s in got])


@bounded(P, [CB + "__init__", CB + "ask", CB + "tell", CB + "_create_optimizer", CB + "select_subspace"], n=14, n_thorough=300, budget=120,
         bound="conditional spaces of up to 10 variables, batches of 1-4 points, 3-8 rounds with real random forests, both directions")
def conditional_optimizer(b):
    import bayes_optim.search_space as S
    from bayes_optim.extension import ConditionalBO
    from bayes_optim.utils.exception import AskEmptyError

    r = b.py
    for case in b.loop():
        sp, names, cond = _space(r, S, "conditions", roots=(1, 2), free=(1, 2))
        want = _want_subspaces(names, cond)
        if len(want) > 12:
            continue
        n, mini = r.randint(2, 4), r.random() < 0.5
        info = dict(variables=names, conditions={a: f"{c[0]} == {c[1]!r}" for a, c in cond.items()}, n_point=n, minimize=mini)
        bo = ConditionalBO(search_space=sp, obj_fun=lambda x: 0.0, DoE_size=2, max_FEs=50, n_point=n, minimize=mini, acquisition_optimization=dict(AQ))
        seen, told = [], []

        def member(x):
            act = {m for m in names if x[m] is not None}
            for key, free in want:
                if act == set(key) | free and all(x[k] == v for k, v in key.items()):
                    return repr(sorted(key.items(), key=str))
            return None

        try:
            for _ in range(max(r.randint(3, 8), -(-len(want) // n))):
                q = r.choice([n, n, 1])
                X = bo.ask(q) if q != n else bo.ask()
                b.check(len(X) == q, "number of points", got=len(X), **info)
                for x in X:
                    b.check(set(x) == set(names), "a point does not state every variable", got=x, **info)
                    k = member(x)
                    b.check(k is not None, "a point does not have exactly the active variables", got=x, **info)
                    seen.append(k)
                    for m in names:
                        if x[m] is not None:
                            b.check(x[m] in sp[m], "a value outside its domain", name=m, got=x, **info)
                m = min(len(seen), len(want))
                b.check(len(set(seen[:m])) == m, "the first points do not visit every subspace once", got=seen, **info)
                y = [r.uniform(-1, 1) for _ in X]
                told += list(zip([dict(x) for x in X], y))
                bo.tell(X, y)
                b.check(bo.eval_count == len(told) and len(bo.data) == len(told), "every evaluation is recorded once", got=(bo.eval_count, len(bo.data)), **info)
                for row, fit, (x, v) in zip(bo.data.to_dict(), bo.data.fitness.ravel().tolist(), told):
                    b.check(row == x and fit == v, "a recorded point differs from the one reported", got=(row, fit), want=(x, v), **info)
                best = (min if mini else max)(v for _, v in told)
                b.check(float(np.ravel(bo.xopt.fitness)[0]) == best and any(v == best and bo._to_pheno(bo.xopt) in (x, [x]) for x, v in told), "the optimum", got=bo.xopt, want=best, **info)
                # each subspace optimizer knows exactly its own points, without the assigned and inactive variables
                for (key, s), o in zip(bo.subspaces, bo._bo):
                    mine = [({m: x[m] for m in s.var_name}, v) for x, v in told if {m for m in names if x[m] is not None} == set(key) | set(s.var_name) and all(x[k] == c for k, c in key.items())]
                    have = list(zip(o.data.to_dict(), o.data.fitness.ravel().tolist())) if hasattr(o, "data") else []
                    b.check(have == mine, "a subspace optimizer has other data than its own points", got=have, want=mine, **info)
        except AskEmptyError:
            continue


# ------------------------------------------------------------------ proofs (structural induction: the recursive call is replaced by its contract)
UPTO = ["up to 3 children per node, trees of any depth by induction; names and conditions are opaque"]


def _node(v, m, k, data=None):
    n = m.Node("self", data)
    kids = [m.Node(f"child{i}", f"data{i}") for i in range(k)]
    for i, c in enumerate(kids):
        c.is_root = False
        n.children.append(c)
        n.branches.append(f"condition{i}")
    return n, kids


def _remove(k, invert):
    def body(v):
        m = v.mod("search_space.node")
        n, kids = _node(v, m, k, {"payload": 1})
        orig = m.Node.remove
        listed = {x.name: v.bool(f"listed_{x.name}") for x in [n] + kids}

        class Names:
            """a list of names: which ones are listed is arbitrary"""

            def __contains__(self, e):
                return bool(listed[e])

        names = Names()
        copies = {}

        def rec(self, node_names, invert_=False, **kw):
            inv = kw.get("invert", invert_)
            v.ensure("the children are treated with the same names and the same sense", node_names is names and inv == invert)
            c = m.Node(self.name)
            copies[self.name] = c
            return c

        v.stub(m.Node, "remove", rec)
        r = orig(n, names, invert)
        drop = lambda x: (not bool(listed[x])) if invert else bool(listed[x])
        if drop("self"):
            v.ensure("a dropped root gives no tree", r is None)
        else:
            left = [i for i in range(k) if not drop(f"child{i}")]
            v.ensure("a copy with the same name and data", r is not n and r.name == "self" and r.data == n.data and r.data is not n.data)
            v.ensure("exactly the kept children, pruned, in order", len(r.children) == len(left) and all(c is copies[f"child{i}"] for c, i in zip(r.children, left)))
            v.ensure("each under its own condition", list(r.branches) == [f"condition{i}" for i in left])
            v.ensure("children are not roots", r.is_root and not any(c.is_root for c in r.children))
        v.ensure("the tree itself is not changed", list(n.children) == kids and list(n.branches) == [f"condition{i}" for i in range(k)] and n.is_root)

    return body


for _k in range(4):
    for _i in (True, False):
        proof(P, [ND + "remove"], name=f"remove_{_k}{'_keep' if _i else ''}", assume=UPTO)(_remove(_k, _i))


def _describe(k):
    def body(v):
        m = v.mod("search_space.node")
        n, kids = _node(v, m, k)
        names = {c.name: [c.name] + [f"{c.name}.{j}" for j in range(i)] for i, c in enumerate(kids)}
        descr = {c.name: {} if i == 0 else {c.name: [{"name": f"{c.name}.{j}", "condition": f"b{j}"} for j in range(i)]} for i, c in enumerate(kids)}
        for i, c in enumerate(kids):  # subtrees for which the contracts of the recursive calls are true
            c.children, c.branches = [m.Node(f"{c.name}.{j}") for j in range(i)], [f"b{j}" for j in range(i)]
        gn, td = m.Node.get_all_name, m.Node.to_dict
        v.stub(m.Node, "get_all_name", lambda self: list(names[self.name]))
        v.stub(m.Node, "to_dict", lambda self: dict(descr[self.name]))
        got = [x for x in gn(n)]
        v.ensure("every name of the tree once, parents first", got == ["self"] + [x for c in kids for x in names[c.name]])
        want = {"self": [{"name": c.name, "condition": f"condition{i}"} for i, c in enumerate(kids)]} if kids else {}
        for c in kids:
            want.update(descr[c.name])
        out = td(n)
        v.ensure("every child with its condition, then the descriptions of the children", {a: [dict(y) for y in x] for a, x in out.items()} == want)

    return body


for _k in range(4):
    proof(P, [ND + "get_all_name", ND + "to_dict"], name=f"describe_{_k}", assume=UPTO)(_describe(_k))


def _partitions(k):
    if k == 0:
        yield []
        return
    for p in _partitions(k - 1):
        for x in range((max(p) if p else -1) + 2):
            yield p + [x]


def _all_path(k):
    def body(v):
        m = v.mod("search_space.node")
        orig = m.Node.get_all_path
        for br in _partitions(k):
            for inner in itertools.product((0, 1, 2), repeat=k):  # 0: a leaf, q: an inner node with q paths
                n, kids = _node(v, m, k)
                n.branches = [f"b{x}" for x in br]
                paths = {}
                for i, (c, q) in enumerate(zip(kids, inner)):
                    if q:
                        c.children = [m.Node(f"leaf{i}{a}{x}") for a in range(q) for x in range(a + 1)]
                        c.branches = [f"p{i}{a}" for a in range(q) for x in range(a + 1)]
                        paths[c.name] = {(f"p{i}{a}",): [f"leaf{i}{a}{x}" for x in range(a + 1)] for a in range(q)}
                    else:
                        paths[c.name] = {(): None}
                m.Node.get_all_path = lambda self: dict(paths[self.name])
                try:
                    got = orig(n)
                finally:
                    m.Node.get_all_path = orig
                want = {}
                for x in dict.fromkeys(br):
                    opts = [[((), [kids[i].name])] if not inner[i] else list(paths[kids[i].name].items()) for i in range(k) if br[i] == x]
                    for item in itertools.product(*opts):
                        want[tuple(sorted((f"b{x}",) + tuple(t for p, _ in item for t in p)))] = sorted(t for _, f in item for t in f)
                got = {tuple(sorted(a for a in key)): sorted(t for t in val) for key, val in got.items()}
                v.ensure(f"branches {br}, children {inner}: every combination with exactly its variables", got == want)
        leaf = m.Node("leaf")
        v.ensure("a leaf has no path", orig(leaf) == {(): None})

    return body


for _k in (1, 2, 3):
    proof(P, [ND + "get_all_path"], name=f"paths_{_k}", assume=["up to 3 children per node in every arrangement of branches, leaves and inner nodes with up to 2 paths; trees of any depth by induction"])(_all_path(_k))


@proof(P, [ND + "add_child"])
def add_child(v):
    m = v.mod("search_space.node")
    for k in range(4):
        n, kids = _node(v, m, k)
        c = m.Node("new")
        v.ensure("the child is added at the end under its condition", n.add_child(c, "x == 1") is n and list(n.children) == kids + [c] and list(n.branches) == [f"condition{i}" for i in range(k)] + ["x == 1"])
        v.ensure("the child is no root any more", not c.is_root and n.is_root)


class _Sub:
    """stand-in for the optimizer of one subspace: proposes one point with its own variables, records what it is told"""

    def __init__(self, v, k, names):
        self.v, self.k, self.names, self.told, self.asked = v, k, names, [], []

    def ask(self):
        i = len(self.asked)
        x = {n: self.v.real(self.v.c.name(f"x{self.k}_{n}")) for n in self.names}
        self.asked.append(dict(x))
        return [x]

    def tell(self, X, y, **kw):
        self.told.append((X, y, kw))


SUBS = [({"s": 1, "t": "A"}, ["a", "f"]), ({"s": 1, "t": "B"}, ["b", "c", "f"]), ({"s": 2}, ["d", "f"])]
NAMES = ["s", "t", "a", "b", "c", "d", "f"]


def _cond(v, m, fresh):
    o = m.ConditionalBO.__new__(m.ConditionalBO)
    bos = [_Sub(v, k, names) for k, (_, names) in enumerate(SUBS)]
    o.__dict__.update(n_subspace=3, n_point=2, logger=Log(), var_names=list(NAMES), _bo=bos, _fixed_vars=[dict(d) for d, _ in SUBS], subspaces=[(d, None) for d, _ in SUBS],
                      _init_gen=iter(range(3)) if fresh else iter(()), _bo_idx=[], eval_count=v.int("evals", 0), iter_count=v.int("iters", 0), hist_f=[])
    return o, bos


def _cask(fresh, n, how):
    def body(v):
        m = v.mod("extension")
        o, bos = _cond(v, m, fresh)

        def choice(a, size=None):
            v.ensure("a subspace is chosen among all", a == 3)
            out = []
            for _ in range(int(size)):
                k = v.int(v.c.name("k"), 0, 2)
                out.append(0 if bool(v.eq(k, 0)) else 1 if bool(v.eq(k, 1)) else 2)

            class R:
                def tolist(self):
                    return out

            return R()

        v.stub(symnp.random, "choice", choice)
        X = [x for x in (o.ask(n) if how == "arg" else o.ask())]
        idx = [int(i) for i in o._bo_idx]
        v.ensure("the requested number of points", len(X) == n and len(idx) == n)
        if fresh:
            v.ensure("every subspace is visited once first", idx[: min(n, 3)] == list(range(min(n, 3))))
        v.ensure("the selected subspaces are asked, once per point", [len(b_.asked) for b_ in bos] == [idx.count(k) for k in range(3)])
        cnt = {}
        for i, (x, k) in enumerate(zip(X, idx)):
            key, free = SUBS[k]
            pt = bos[k].asked[cnt.get(k, 0)]
            cnt[k] = cnt.get(k, 0) + 1
            v.ensure(f"point {i} states every variable", set(x) == set(NAMES))
            for nm in NAMES:
                if nm in key:
                    v.ensure(f"point {i}: the selectors have the values of the subspace", x[nm] == key[nm])
                elif nm in free:
                    v.ensure(f"point {i}: the active variables have the proposed values", v.eq(x[nm], pt[nm]))
                else:
                    v.ensure(f"point {i}: the other variables are inactive", x[nm] is None)
        v.ensure("the assignments of the subspaces are not changed", [dict(d) for d in o._fixed_vars] == [dict(d) for d, _ in SUBS])

    return body


for _f, _n, _how in ((True, 2, "default"), (True, 3, "arg"), (True, 4, "arg"), (False, 1, "arg"), (False, 2, "default"), (False, 3, "arg")):
    proof(P, [CB + "ask", CB + "select_subspace"], name=f"conditional_ask_{'first' if _f else 'later'}_{_n}", assume=["three subspaces, up to 4 points at a time; the optimizers of the subspaces follow C07"])(_cask(_f, _n, _how))


def _ctell(idx, warm):
    def body(v):
        m = v.mod("extension")
        o, bos = _cond(v, m, False)
        o._bo_idx = list(idx)
        X, want = [], []
        for i, k in enumerate(idx):
            key, free = SUBS[k]
            x = {n: None for n in NAMES}
            x.update(key)
            x.update({n: v.real(f"x{i}_{n}") for n in free})
            X.append(x)
            want.append((k, {n: x[n] for n in free}))
        y = [v.real(f"y{i}") for i in range(len(idx))]
        keep = [dict(x) for x in X]
        log = []

        class S_:
            fitness = v.real("best")

            def __init__(self, tag):
                self.tag = tag

            def __add__(self, other):
                return S_(self.tag + other.tag)

            def to_dict(self):
                return {}

        def geno(X_, **kw):
            v.ensure("all points are recorded with their own values", X_ is X and kw["fitness"] is y and kw["n_eval"] == 1)
            return S_(["new"])

        o._to_geno, o._to_pheno = geno, lambda x: {}
        best = S_(["opt"])
        v.stub(m.ConditionalBO, "post_eval_check", lambda self, z: (log.append(z), z)[1])
        v.stub(m.ConditionalBO, "xopt", property(lambda self: best))
        o.data = S_(["old"])
        e0, i0 = o.eval_count, o.iter_count
        o.tell(X, y, warm) if warm else o.tell(X, y)
        v.ensure("the new points are appended to the old ones", o.data.tag == ["old", "new"])
        v.ensure("evaluations are counted", v.eq(o.eval_count, e0 if warm else e0 + len(idx)))
        v.ensure("iterations are counted", v.eq(o.iter_count, i0 if warm else i0 + 1))
        v.ensure("one entry of the history per report", len(o.hist_f) == (0 if warm else 1) and (warm or o.hist_f[0] is best.fitness))
        v.ensure("each subspace is told exactly its own points", [len(b_.told) for b_ in bos] == [list(idx).count(k) for k in range(3)])
        pos = {}
        for i, (k, w) in enumerate(want):
            Xk, yk, kw = bos[k].told[pos.get(k, 0)]
            pos[k] = pos.get(k, 0) + 1
            v.ensure(f"point {i} reaches its subspace with its active variables only", len(Xk) == 1 and set(Xk[0]) == set(w) and len(yk) == 1)
            v.ensure(f"point {i} reaches its subspace with its own values", v.and_(v.eq(yk[0], y[i]), *[v.eq(Xk[0][n], w[n]) for n in w]))
        v.ensure("the caller's points are not changed", all(set(a) == set(c) and all(a[n] is c[n] for n in a) for a, c in zip(X, keep)))

    return body


for _q, _idx in enumerate(((0,), (1, 2), (2, 0, 2), (1, 1))):
    for _w in (False, True):
        proof(P, [CB + "tell"], name=f"conditional_tell_{_q}{'_warm' if _w else ''}", assume=["three subspaces, up to 3 points at a time; recording follows C05 and C06, the optimizers of the subspaces their own contracts"])(_ctell(_idx, _w))


def _create(v):
    """one optimizer per subspace, each over its own subspace and with the settings of the whole"""
    m = v.mod("extension")
    o = m.ConditionalBO.__new__(m.ConditionalBO)
    spaces = [type("Space", (), dict(levels={"l%d" % k: ["x"]}))() for k in range(3)]
    subs = [(dict(d), sp) for (d, _), sp in zip(SUBS, spaces)]
    o._search_space = type("Whole", (), dict(get_unconditional_subspace=lambda self: subs))()
    made, models = [], []

    class Sub:
        def __init__(self, **kw):
            made.append((self, kw))

    v.stub(m, "BO", Sub)
    v.stub(m, "RandomForest", lambda *a, **kw: models.append((("model", len(models)), kw)) or models[-1][0])
    f, mini, budget, seed = object(), v.bool("minimize"), v.int("budget", 1), v.int("seed", 0)
    kw = dict(obj_fun=f, minimize=mini, max_FEs=budget, random_seed=seed, DoE_size=7, n_point=4, eval_type="list", search_space=o._search_space, model=None)
    before = dict(kw)
    o._create_optimizer(**kw)
    v.ensure("one optimizer per subspace, in their order", len(o._bo) == 3 and all(b is q for b, (q, _) in zip(o._bo, made)))
    v.ensure("the number of subspaces", o.n_subspace == 3)
    if not hasattr(o, "_init_gen") or not hasattr(o, "_fixed_vars"):
        raise Unsupported("another layout of the optimizer")
    v.ensure("the assignment of each subspace", [dict(d) for d in o._fixed_vars] == [dict(d) for d, _ in SUBS])
    v.ensure("every subspace is visited first, in order", list(o._init_gen) == [0, 1, 2])
    for k, (_, a) in enumerate(made):
        v.ensure(f"{k}: its own subspace", a["search_space"] is spaces[k])
        v.ensure(f"{k}: one point at a time, points as dictionaries", a["DoE_size"] == 1 and a["n_point"] == 1 and a["eval_type"] == "dict")
        v.ensure(f"{k}: the objective", a["obj_fun"] is f)
        v.ensure(f"{k}: the direction, budget and seed", v.and_(v.eq(a["minimize"], mini), v.eq(a["max_FEs"], budget), v.eq(a["random_seed"], seed)))
        mine = [q for mod, q in models if mod is a["model"]]
        v.ensure(f"{k}: a model of its own with the levels of its subspace", len(mine) == 1 and mine[0].get("levels") == spaces[k].levels)
    v.ensure("no two share a model", len({a["model"] for _, a in made}) == 3)
    v.ensure("the settings given are unchanged", all(kw[k] is before[k] for k in before) and len(kw) == len(before))


proof(P, [CB + "_create_optimizer"], name="conditional_parts", assume=["three subspaces; get_unconditional_subspace follows its own contract (bounded)"])(_create)
