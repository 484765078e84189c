"""C11 Pareto sets and non-dominated fronts."""
import numpy as np

from pyvc.runtime import LoopContract
from pyvc import symnp
from pyvc.verify import *

P = "C11"
U = "bayes_optim.utils.utils."
PA = "bayes_optim.utils.multi_objective.pareto."
LOOP = {}


def _efficient(m_obj, ret):
    def body(v):
        m = v.mod("utils.utils")
        n = v.int("n", 0)
        F0 = v.array("F", (n, m_obj))
        ft = F0._snapshot()
        R = range(m_obj)
        leq = lambda a, b: z3.And(*[a[k] <= b[k] for k in R])
        eq = lambda a, b: z3.And(*[a[k] == b[k] for k in R])
        dom = lambda a, b: z3.And(leq(a, b), z3.Or(*[a[k] < b[k] for k in R]))
        row0 = lambda i: [ft(i, z3.IntVal(k)) for k in R]
        J, D = v.generic(n, "J"), v.generic(n, "D")  # ghost: two arbitrary points
        ghost = {}

        def read(st):
            E, F = st["is_efficient"], st["fitness"]
            ef, ff = (E._snapshot() if hasattr(E, "_snapshot") else None), F._snapshot()
            return lift(E.shape[0]), (lambda i: core.to_int(ef(i))), (lambda i: [ff(i, z3.IntVal(k)) for k in R]), lift(st["next_point_index"]), F

        def inv(st):
            c, e, f, p, F = read(st)
            a, b, w = z3.Ints(" ".join(v.c.name(x) for x in "abw"))
            inr = lambda x: z3.And(x >= 0, x < c)
            return [
                ("sizes", z3.And(c >= 0, c <= lift(n), lift(F.shape[0]) == c, p >= 0, p <= c)),
                ("remaining points are points of the set, in order", z3.And(
                    z3.ForAll([a], z3.Implies(inr(a), z3.And(e(a) >= 0, e(a) < lift(n), eq(f(a), row0(e(a)))))),
                    z3.ForAll([a, b], z3.Implies(z3.And(inr(a), inr(b), a < b), e(a) < e(b))))),
                ("no remaining point is as good as a treated one in every objective", z3.ForAll([a, b], z3.Implies(z3.And(inr(a), inr(b), a < p, a != b), z3.Not(leq(f(a), f(b)))))),
            ] + [
                ("a removed point is dominated by a remaining one, or repeats an earlier remaining one", z3.Or(
                    z3.Exists([w], z3.And(inr(w), e(w) == je)),
                    z3.Exists([w], z3.And(inr(w), z3.Or(dom(f(w), row0(je)), z3.And(eq(f(w), row0(je)), e(w) < je))))))
                for je in (J.e, D.e)]

        def havoc(st):
            c = v.int(v.c.name("c"), 0)
            E, Fh = v.array(v.c.name("E"), c, "i"), v.array(v.c.name("Fh"), (c, m_obj))
            out = {"is_efficient": E, "fitness": Fh, "next_point_index": v.int(v.c.name("p"), 0)}
            ghost["st"] = out
            return out

        LOOP["utils.utils:is_pareto_efficient#1"] = LoopContract(havoc, inv)
        r = m.is_pareto_efficient(F0, return_mask=ret)
        x = z3.Int("x")
        jr = row0(J.e)
        worse = z3.Exists([x], z3.And(in_range(x, n), z3.Or(dom(row0(x), jr), z3.And(eq(row0(x), jr), x < J.e))))
        if ret:
            sel = core.to_bool(lift(v.at(r, J)))
            v.ensure("one entry per point", v.eq(v.len(r), n))
        else:
            q = z3.Int("q")
            sel = z3.Exists([q], z3.And(in_range(q, v.len(r)), core.to_int(lift(v.at(r, SymNum(q)))) == J.e))
        v.ensure("a point that is not selected is dominated or repeats an earlier point", SymBool(z3.Or(sel, worse)))
        d = row0(D.e)
        v.ensure("a selected point is not dominated and repeats no earlier point", SymBool(z3.Implies(sel, z3.Not(z3.Or(dom(d, jr), z3.And(eq(d, jr), D.e < J.e))))))

    return body


for k in (2, 3):
    for ret in (True, False):
        proof(P, [U + "is_pareto_efficient"], name=f"is_pareto_efficient_{k}_{'mask' if ret else 'index'}", loops=LOOP, timeout=30000)(_efficient(k, ret))


def _dominance(v, Y, m):
    f = Y._snapshot()
    row = lambda i: [f(i, z3.IntVal(k)) for k in range(m)]
    eq = lambda a, b: z3.And(*[x == y for x, y in zip(a, b)])
    dom = lambda a, b: z3.And(*[x >= y for x, y in zip(a, b)], z3.Or(*[x > y for x, y in zip(a, b)]))
    return row, eq, dom


def _torch(m_obj, dedup):
    def body(v):
        from pyvc.symtorch import SymTensor

        m = v.mod("utils.multi_objective.pareto")
        n = v.int("n", 0)
        Y = v.array("Y", (n, m_obj))
        row, eq, dom = _dominance(v, Y, m_obj)
        J = v.generic(n, "J")
        r = m.is_non_dominated(SymTensor(Y), deduplicate=dedup) if dedup is not None else m.is_non_dominated(SymTensor(Y))
        v.ensure("one entry per point", v.eq(r.shape[0], n))
        x = z3.Int("x")
        worse = z3.Exists([x], z3.And(in_range(x, n), dom(row(x), row(J.e))))
        if dedup is not False:
            worse = z3.Or(worse, z3.Exists([x], z3.And(in_range(x, n), x < J.e, eq(row(x), row(J.e)))))
        sel = core.to_bool(lift(v.at(r.a, J)))
        v.ensure("a selected point is not dominated" + (" and repeats no earlier point" if dedup is not False else ""), SymBool(z3.Implies(sel, z3.Not(worse))))
        v.ensure("every other point is dominated" + (" or repeats an earlier point" if dedup is not False else ""), SymBool(z3.Or(sel, worse)))

    return body


for k in (2, 3):
    for d in (True, False):
        proof(P, [PA + "is_non_dominated"], name=f"is_non_dominated_{k}_{'unique' if d else 'all'}", timeout=30000, assume=["torch tensor operations follow pyvc/symtorch.py"])(_torch(k, d))


def _set2d(mini):
    def body(v):
        m = v.mod("utils.multi_objective.pareto")
        n = v.int("n", 1)
        Y = v.array("Y", (n, 2))
        row, eq, _ = _dominance(v, Y, 2)
        better = (lambda x, y: x < y) if mini else (lambda x, y: x > y)
        geq = lambda a, b: z3.And(*[z3.Or(better(x, y), x == y) for x, y in zip(a, b)])
        dom = lambda a, b: z3.And(geq(a, b), z3.Not(eq(a, b)))
        G = v.generic(n, "G")  # ghost: an arbitrary position in the order of treatment

        def lists(st):
            return {k: x for k, x in {**v.c.loop_env, **st}.items() if isinstance(x, (list, SymSeq))}

        def inv(st, i, it):
            out, ie = [], core.to_int(lift(i))
            val = [x for x in v.c.loop_env.values() if hasattr(x, "_snapshot") and x.ndim == 1][0]._snapshot()
            for s in lists(st).values():
                ln = v.len(s)
                a, b, w, q = z3.Ints(" ".join(v.c.name(x) for x in "abwq"))
                emp = z3.is_int_value(z3.simplify(lift(ln))) and z3.simplify(lift(ln)).as_long() == 0
                el = lambda z: z3.IntVal(0) if emp else core.to_int(lift(v.at(s, SymNum(z))))
                out.append(("selected positions were treated, in order, with increasing second value", z3.And(
                    z3.ForAll([a], z3.Implies(in_range(a, ln), z3.And(el(a) >= 0, el(a) < ie))),
                    z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < lift(ln)), z3.And(el(a) < el(b), val(el(a)) < val(el(b))))))))
                out.append(("every treated point is selected or not better in the second value than an earlier selected one", z3.And(*[z3.Implies(q < ie, z3.Exists([w], z3.And(
                    in_range(w, ln), el(w) <= q, val(el(w)) >= val(q)))) for q in (G.e,)])))
            return out

        def havoc(st):
            c = v.int(v.c.name("c"), 0)
            F = z3.Function(v.c.name("ND"), INT, INT)
            return {k: SymSeq(c, lambda i: wrap(F(i))) for k in lists(st)}

        SET["utils.multi_objective.pareto:non_dominated_set_2d#1"] = LoopContract(havoc, inv)
        r = m.non_dominated_set_2d(Y, minimize=mini)
        A = SymNum(v.c._perms[-1][0](lift(n) - 1 - G.e))  # the point there: positions and points correspond one to one
        g = v.generic(v.len(r), "g")
        gi = core.to_int(lift(v.at(r, g)))
        v.ensure("selected entries are points of the set", SymBool(in_range(gi, n)))
        v.ensure("a selected point is not dominated", SymBool(z3.Not(dom(row(A.e), row(gi)))))
        h = v.generic(v.len(r), "h")
        hi = core.to_int(lift(v.at(r, h)))
        v.ensure("no two selected points agree", SymBool(z3.Implies(g.e != h.e, z3.Not(eq(row(gi), row(hi))))))
        q = z3.Int("q")
        ri = core.to_int(lift(v.at(r, SymNum(q))))
        v.ensure("every point is as good as no better than a selected one", SymBool(z3.Exists([q], z3.And(in_range(q, v.len(r)), geq(row(ri), row(A.e))))))

    return body


SET = {}
for mini in (True, False):
    proof(P, [PA + "non_dominated_set_2d"], name=f"non_dominated_set_2d_{'min' if mini else 'max'}", loops=SET, timeout=30000)(_set2d(mini))


def _xopt(flags):
    def body(v):
        from contracts.opt import optimizer, solutions

        m = v.mod("mobo")
        n = v.int("n", 1)
        s, D = solutions(v, "d", n, ["p", "q"], k=2)
        o = optimizer(v, m.BaseMOBO, ["p", "q"], n_obj=2, minimize=np.array(flags))
        o.data = s
        v.stub(m.BaseMOBO, "y", property(lambda self: 1))
        f = D["F"]._snapshot()
        nd = z3.Function("nondominated", INT, BOOL)
        A = v.generic(n, "A")

        def contract(Y, deduplicate=True):
            """contract of is_non_dominated (proved above): decides every row of Y for maximization"""
            from pyvc.symtorch import T, arr

            a = arr(Y)
            v.ensure("all recorded solutions are compared", v.and_(v.eq(a.shape[0], n), v.eq(a.shape[1], 2)))
            for k in range(2):
                v.ensure(f"objective {k} in the direction declared for it", v.eq(v.at(a, A, k), -v.at(D["F"], A, k) if flags[k] else v.at(D["F"], A, k)))
            v.ensure("repeated values are reported once", deduplicate is True)
            return T(symnp.SymArray._make((n,), lambda i: nd(i), "b"))

        v.stub(m, "is_non_dominated", contract)
        r = o.xopt
        g = v.generic(v.len(r), "g")
        same = lambda q, i: z3.And(*[lift(v.at(r.fitness, q, k)) == f(i, z3.IntVal(k)) for k in range(2)], *[core.eq(lift(v.at(r, q, k)), lift(v.at(D["X"], SymNum(i), k))) for k in range(2)])
        a, q = z3.Int("src"), z3.Int("q")
        v.ensure("a reported solution is a non-dominated recorded one with its own values", SymBool(z3.Exists([a], z3.And(in_range(a, n), nd(a), same(g, a)))))
        v.ensure("every non-dominated solution is reported", SymBool(z3.Implies(nd(A.e), z3.Exists([q], z3.And(in_range(q, v.len(r)), same(SymNum(q), A.e))))))

    return body


for flags in ((True, True), (False, False), (True, False)):
    proof(P, ["bayes_optim.mobo.BaseMOBO.xopt"], name="pareto_set_of_the_data_" + "".join("min" if x else "max" for x in flags), timeout=30000, assume=["torch tensor operations follow pyvc/symtorch.py", "is_non_dominated by its own contract"])(_xopt(flags))


def _fronts(mu, k):
    def run(v):
        m = v.mod("utils.multi_objective.pareto")
        v.split()
        v.c.max_paths = 6000
        F = v.array("F", (k, mu))
        dom = [[v.and_(*[F[c, a] <= F[c, b] for c in range(k)], v.or_(*[F[c, a] < F[c, b] for c in range(k)])) for b in range(mu)] for a in range(mu)]
        r = [[int(q) for q in f] for f in m.fast_non_dominated_sort(F)]
        v.ensure("every point in exactly one front", sorted(sum(r, [])) == list(range(mu)) and all(len(f) for f in r))
        where = {p: t for t, f in enumerate(r) for p in f}
        for b in range(mu):
            v.ensure(f"point {b}: every point dominating it is in an earlier front", v.and_(*[v.implies(dom[a][b], where[a] < where[b]) for a in range(mu) if a != b], True))
            v.ensure(f"point {b}: a point of the front before dominates it", where[b] == 0 or v.or_(*[dom[a][b] for a in r[where[b] - 1]]))

    return run


for mu_, k_ in ((1, 2), (2, 2), (2, 3), (3, 2)):
    proof(P, [PA + "fast_non_dominated_sort"], name=f"fronts_{mu_}_points_{k_}_objectives", assume=[f"{mu_} points, {k_} objectives"])(_fronts(mu_, k_))
proof(P, [PA + "fast_non_dominated_sort"], name="fronts_3_points_3_objectives", assume=["3 points, 3 objectives"])(_fronts(3, 3))
proof(P, [PA + "fast_non_dominated_sort"], name="fronts_4_points_2_objectives", thorough=True, assume=["4 points, 2 objectives"])(_fronts(4, 2))


# ------------------------------------------------------------------ run-time contracts
def _dom(a, b, mini):
    """a dominates b"""
    return all((x <= y if m else x >= y) for x, y, m in zip(a, b, mini)) and any(x != y for x, y in zip(a, b))


def _values(b, n, m):
    r = b.py
    kind = r.choice(["grid", "grid", "real", "front", "close", "ints", "inf"])
    if kind == "grid":
        return np.array([[float(r.randint(0, 3)) for _ in range(m)] for _ in range(n)]).reshape(n, m)
    if kind == "ints":
        return np.array([[r.randint(-2, 2) for _ in range(m)] for _ in range(n)], dtype=int).reshape(n, m)
    if kind == "front":
        return np.array([[t + (r.random() < 0.2) * 0.5] + [-t * (k + 1) for k in range(m - 1)] for t in [r.uniform(-1, 1) for _ in range(n)]]).reshape(n, m)
    A = b.rng.normal(size=(n, m)) * 10.0 ** r.randint(-3, 6)
    if kind == "close" and n > 1:
        A[r.randrange(n)] = A[r.randrange(n)] * (1 + r.choice([0.0, 1e-9, 1e-12, 1e-15]))
    if kind == "inf" and n > 1:
        A[r.randrange(n), r.randrange(m)] = r.choice([np.inf, -np.inf])
    return A


def _first_of(Y):
    seen, out = [], []
    for y in Y.tolist():
        out.append(y not in seen)
        seen.append(y)
    return out


@bounded(P, [U + "is_pareto_efficient", PA + "is_non_dominated", PA + "non_dominated_set_2d", PA + "fast_non_dominated_sort"], n=6000, n_thorough=200000, budget=120,
         bound="every set of up to 4 points with two objectives in {0,1,2} (fast_non_dominated_sort), and random sets of 0-14 points with 1-5 objectives: ties, duplicates, infinite and nearly equal values, batches")
def dominance_against_the_definition(b):
    import itertools
    import torch
    from bayes_optim.utils.utils import is_pareto_efficient
    from bayes_optim.utils.multi_objective.pareto import fast_non_dominated_sort, is_non_dominated, non_dominated_set_2d

    def fronts_ok(Y):
        """Y: points by rows; minimization"""
        F = np.ascontiguousarray(Y.T)
        before = F.copy()
        fr = fast_non_dominated_sort(F)
        b.check(np.array_equal(F, before), "the sort changed its input", Y=Y.tolist())
        rest, want = list(range(len(Y))), []
        mini = [True] * Y.shape[1]
        while rest:
            f = [i for i in rest if not any(_dom(Y[j], Y[i], mini) for j in rest)]
            want.append(f)
            rest = [i for i in rest if i not in f]
        b.check([sorted(x) for x in fr] == want, "fronts", Y=Y.tolist(), got=fr, want=want)

    pts = list(itertools.product(range(3), repeat=2))
    for n in (1, 2, 3):
        for c in itertools.product(pts, repeat=n):
            fronts_ok(np.array(c, dtype=float))
    r = b.py
    for case in b.loop():
        n, m = r.choice([0, 1, 1, 2, 3, 4, 6, 9, 14]), r.choice([1, 2, 2, 3, 4, 5])
        Y = _values(b, n, m)
        mini = [True] * m
        nd = [not any(_dom(Y[j], Y[i], mini) for j in range(n)) for i in range(n)]
        first = _first_of(Y)
        want = [a and c for a, c in zip(nd, first)]
        Z = Y.copy()
        got = is_pareto_efficient(Z)
        b.check([bool(x) for x in got] == want, "is_pareto_efficient", Y=Y.tolist(), got=got, want=want)
        idx = is_pareto_efficient(Z, return_mask=False)
        b.check(list(idx) == [i for i in range(n) if want[i]], "is_pareto_efficient (indices)", Y=Y.tolist(), got=idx, want=want)
        b.check(np.array_equal(Z, Y), "is_pareto_efficient changed its input", Y=Y.tolist())
        t = torch.tensor(-Y)
        for d in (True, False):
            got = is_non_dominated(t, deduplicate=d).tolist()
            b.check(got == (want if d else nd), "is_non_dominated", Y=Y.tolist(), deduplicate=d, got=got, want=want if d else nd)
        if n and case % 3 == 0:
            t3 = torch.tensor(np.stack([-Y, -Y[::-1], Y]))
            got = is_non_dominated(t3).tolist()
            sep = [is_non_dominated(x).tolist() for x in t3]
            b.check(got == sep, "is_non_dominated of a batch", Y=Y.tolist(), got=got, want=sep)
        b.check(np.array_equal(t.numpy(), -Y), "is_non_dominated changed its input", Y=Y.tolist())
        if n and m == 2 and np.isfinite(Y.astype(float)).all():
            for mi in (True, False):
                V = Y.copy() if mi else -Y
                got = [int(i) for i in non_dominated_set_2d(V, minimize=mi)]
                b.check(len(set(got)) == len(got) and sorted(map(tuple, Y[got].tolist())) == sorted(map(tuple, Y[[i for i in range(n) if want[i]]].tolist())), "non_dominated_set_2d",
                        Y=V.tolist(), minimize=mi, got=got)
        if n and m > 1:
            fronts_ok(Y)


@bounded(P, ["bayes_optim.mobo.BaseMOBO.xopt"], n=8000, n_thorough=64000, budget=60, bound="recorded sets of 1-12 solutions with 2-4 objectives, every mix of directions, ties, duplicates and nearly equal values")
def pareto_set_of_an_optimizer(b):
    from bayes_optim.mobo import MOBO
    from bayes_optim.solution import Solution

    r = b.py
    for case in b.loop():
        n, m = r.choice([1, 2, 3, 5, 8, 12]), r.choice([2, 2, 3, 4])
        Y = np.asarray(_values(b, n, m), dtype=float)
        if not np.isfinite(Y).all():
            Y = np.nan_to_num(Y, posinf=7.0, neginf=-7.0)
        mini = [r.random() < 0.5 for _ in range(m)]
        o = MOBO.__new__(MOBO)
        o.n_obj, o.minimize = m, np.asarray(mini)
        o.data = Solution(np.arange(n).reshape(-1, 1).astype(object), fitness=Y.copy(), var_name=["x"], n_obj=m)
        x = o.xopt
        got = [int(v) for v in np.asarray(x)[:, 0]]
        want = [i for i in range(n) if not any(_dom(Y[j], Y[i], mini) for j in range(n)) and Y[i].tolist() not in Y[:i].tolist()]
        b.check(got == want, "reported set", Y=Y.tolist(), minimize=mini, got=got, want=want)
        b.check(np.array_equal(np.asarray(x.fitness), Y[want]), "values of the reported set", Y=Y.tolist(), got=np.asarray(x.fitness).tolist())
        b.check(np.array_equal(o.data.fitness, Y), "the recorded values changed", Y=Y.tolist())
