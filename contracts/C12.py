"""C12 Hypervolume, box decompositions, expected hypervolume improvement."""
import itertools

import numpy as np

from pyvc.runtime import LoopContract
from pyvc import symnp, symtorch
from pyvc.verify import *

P = "C12"
HV = "bayes_optim.utils.multi_objective.hypervolume."
BD = "bayes_optim.utils.multi_objective.box_decompositions."
EH = "bayes_optim.multi_objective.analytic."


# ------------------------------------------------------------------ proofs
TORCH = ["torch tensor operations follow pyvc/symtorch.py"]


def _front(v):
    """a two-objective front sorted by the first objective, better than the reference point"""
    from pyvc.symtorch import SymTensor

    n = v.int("n", 1)
    Y, R = v.array("Y", (n, 2)), v.array("R", 2)
    y, r = Y._snapshot(), R._snapshot()
    a, b = z3.Ints("a b")
    ok = lambda i: z3.And(i >= 0, i < lift(n))
    big = core.POS_INF
    v.assume(z3.ForAll([a], z3.Implies(ok(a), z3.And(*[z3.And(y(a, z3.IntVal(k)) > r(z3.IntVal(k)), y(a, z3.IntVal(k)) < big) for k in (0, 1)]))))
    v.assume(z3.ForAll([a, b], z3.Implies(z3.And(ok(a), ok(b), a < b), z3.And(y(a, z3.IntVal(0)) < y(b, z3.IntVal(0)), y(a, z3.IntVal(1)) > y(b, z3.IntVal(1))))))
    x = [v.real("x0"), v.real("x1")]
    for k in (0, 1):
        v.assume(z3.And(x[k].e > r(z3.IntVal(k)), x[k].e < big))
    # least-number principle: the first point whose first objective exceeds x (or n)
    q = z3.Int("first")
    v.assume(z3.And(q >= 0, q <= lift(n), z3.Implies(q < lift(n), y(q, z3.IntVal(0)) > x[0].e), z3.ForAll([a], z3.Implies(z3.And(a >= 0, a < q), y(a, z3.IntVal(0)) <= x[0].e), patterns=[y(a, z3.IntVal(0))])))
    return n, SymTensor(Y), SymTensor(R), y, r, x, q


def _inside(r, x, i):
    f = r.a._snapshot()
    return z3.And(*[z3.And(f(z3.IntVal(0), i, z3.IntVal(k)) <= x[k].e, x[k].e < f(z3.IntVal(1), i, z3.IntVal(k))) for k in (0, 1)])


@proof(P, [BD + "utils.compute_non_dominated_hypercell_bounds_2d"], timeout=30000, assume=TORCH + ["infinity is a real constant larger than every value"])
def non_dominated_cells_2d(v):
    m = v.mod("utils.multi_objective.box_decompositions.utils")
    n, Y, R, y, r, x, q = _front(v)
    B = m.compute_non_dominated_hypercell_bounds_2d(Y, R)
    v.ensure("lower and upper bounds of one cell more than points", v.and_(v.eq(B.shape[0], 2), v.eq(B.shape[1], n + 1), v.eq(B.shape[2], 2)))
    i, j = v.generic(n + 1, "i"), v.generic(n + 1, "j")
    a = z3.Int("dm")
    dominated = z3.Exists([a], z3.And(a >= 0, a < lift(n), *[y(a, z3.IntVal(k)) > x[k].e for k in (0, 1)]))
    v.ensure("cells are disjoint", SymBool(z3.Implies(z3.And(_inside(B, x, i.e), _inside(B, x, j.e)), i.e == j.e)))
    v.ensure("cells contain no dominated point", SymBool(z3.Implies(_inside(B, x, i.e), z3.Not(dominated))))
    v.ensure("every non-dominated point is in a cell", SymBool(z3.Implies(z3.Not(dominated), _inside(B, x, q))))


@proof(P, [BD + "utils.compute_dominated_hypercell_bounds_2d"], timeout=30000, assume=TORCH)
def dominated_cells_2d(v):
    m = v.mod("utils.multi_objective.box_decompositions.utils")
    n, Y, R, y, r, x, q = _front(v)
    B = m.compute_dominated_hypercell_bounds_2d(Y, R)
    v.ensure("lower and upper bounds of one cell per point", v.and_(v.eq(B.shape[0], 2), v.eq(B.shape[1], n), v.eq(B.shape[2], 2)))
    i, j = v.generic(n, "i"), v.generic(n, "j")
    a = z3.Int("dm")
    dominated = z3.Exists([a], z3.And(a >= 0, a < lift(n), *[y(a, z3.IntVal(k)) > x[k].e for k in (0, 1)]))
    v.ensure("cells are disjoint", SymBool(z3.Implies(z3.And(_inside(B, x, i.e), _inside(B, x, j.e)), i.e == j.e)))
    v.ensure("cells contain dominated points only", SymBool(z3.Implies(_inside(B, x, i.e), dominated)))
    v.ensure("every dominated point is in a cell", SymBool(z3.Implies(dominated, z3.And(q < lift(n), _inside(B, x, q)))))


class _Normal:
    """contract of torch.distributions.Normal(0, 1)"""

    class _Log:
        def __init__(self, u):
            self.u = u

        def exp(self):
            from pyvc.symtorch import T, arr

            return T(symnp.umap(core.mk_pdf, arr(self.u)))

    def log_prob(self, u):
        return self._Log(u)

    def cdf(self, u):
        from pyvc.symtorch import T, arr

        return T(symnp.umap(core.mk_cdf, arr(u)))


def _ehvi(m_obj):
    def body(v):
        from pyvc.symtorch import SymTensor, T, arr

        m = v.mod("multi_objective.analytic")
        v.stub(m.EHVI, "register_buffer", lambda self, k, x: self.__dict__.__setitem__(k, x))
        n = v.int("n", 1)
        L, Up = v.array("L", (n, m_obj)), v.array("Up", (n, m_obj))
        PY = v.array("PY", (v.int("np", 1), m_obj))

        class Part:
            num_outcomes = m_obj
            pareto_Y = SymTensor(PY)

            @staticmethod
            def get_hypercell_bounds():
                return (SymTensor(L), SymTensor(Up))

        mu, var = v.array("mu", (1, m_obj)), v.array("var", (1, m_obj))

        class Model:
            def predict(self, X, eval_MSE=False):
                v.ensure("prediction with uncertainty", eval_MSE is True)
                v.ensure("prediction at the point asked for", v.and_(v.eq(X.shape[0], 1), *[v.eq(v.at(X, 0, k), v.at(X0, 0, k)) for k in range(2)]))
                return mu, var

        X0 = v.array("X", (1, 2))
        ref = [v.real(f"ref{k}") for k in range(m_obj)]
        f = PY._snapshot()
        v.assume(z3.And(*[f(z3.IntVal(0), z3.IntVal(k)) > ref[k].e for k in range(m_obj)]))
        o = m.EHVI(Model(), ref, Part())
        o.__dict__["_cross_product_indices"] = T(arr(o._cross_product_indices))
        o.__dict__["normal"] = _Normal()
        before = len(v.c.sums)
        r = o.forward(X0)
        if len(v.c.sums) != before + 1:
            raise Unsupported("the improvement is not one sum over the cells")
        ent = v.c.sums[-1]
        v.ensure("one value", v.eq(v.len(r), 1))
        v.ensure("the value is the sum over the cells", SymBool(z3.And(lift(v.at(r, 0)) == (ent["S"](z3.IntVal(0)) if ent["nb"] else ent["S"]()), z3.substitute(ent["cn"], (z3.Int("canon!0"), z3.IntVal(0))) == lift(n))))
        k = v.generic(n, "k")
        term = z3.substitute(ent["cb"], (z3.Int("canon!k"), k.e), (z3.Int("canon!0"), z3.IntVal(0)))
        want = z3.RealVal(1)
        l, u, M, V2 = (t._snapshot() for t in (L, Up, mu, var))
        big = z3.RealVal(10**10)
        for d in range(m_obj):
            dd, z = z3.IntVal(d), z3.IntVal(0)
            s = core.mk_sqrt(z3.If(V2(z, dd) < lift(1e-9), lift(1e-9), V2(z, dd)))
            above = lambda t: s * core.mk_pdf((t - M(z, dd)) / s) + (M(z, dd) - t) * (1 - core.mk_cdf((t - M(z, dd)) / s))  # E max(y - t, 0)
            hi = z3.If(u(k.e, dd) > big, big, u(k.e, dd))
            want = want * (above(l(k.e, dd)) - above(hi))
        v.ensure("every cell contributes the product of the expected lengths of the improvement inside it", SymBool(term == want))

    return body


for k in (2, 3):
    proof(P, [EH + "EHVI.__init__", EH + "EHVI.forward", EH + "EHVI.psi", EH + "EHVI.nu"], name=f"expected_improvement_of_the_cells_{k}", timeout=30000, assume=TORCH + ["torch.distributions.Normal(0,1) gives the standard normal density and distribution function", "single precision treated as exact", "upper bounds beyond 1e10 are clipped there (by the code)"])(_ehvi(k))


def _hypervolume(n, m_obj, above):
    """for n points: every order of the values, ties and duplicates included; dominated points and points not better than the reference point too unless `above`"""

    def run(v):
        m = v.mod("utils.multi_objective.hypervolume")
        v.split()
        v.c.max_paths = 4000
        Y = v.array("Y", (n, m_obj))
        ref = v.array("ref", m_obj)
        y = [[Y[i, j] for j in range(m_obj)] for i in range(n)]
        if above:
            for i in range(n):
                for j in range(m_obj):
                    v.assume(y[i][j] >= ref[j])
        for i in range(n):
            for j in range(m_obj):
                v.assume(SymBool(z3.And(lift(y[i][j] - ref[j]) < core.POS_INF, lift(ref[j] - y[i][j]) < core.POS_INF)))
        hv = m.Hypervolume(ref_point=symtorch.T(ref)).compute(symtorch.T(Y))
        want = 0
        for k in range(1, n + 1):
            for S in itertools.combinations(range(n), k):
                prod = 1
                for j in range(m_obj):
                    lo = y[S[0]][j]
                    for i in S[1:]:
                        if y[i][j] < lo:  # settled: one path for each order
                            lo = y[i][j]
                    d = lo - ref[j]
                    if not above and not d > 0:
                        d = 0
                    prod = prod * d
                want = want + (prod if k % 2 else -prod)
        v.ensure("the volume of the union of the boxes from the reference point to the points", v.eq(hv, want))

    return run


for n_, m_, ab_ in ((1, 2, False), (2, 2, False), (3, 2, True), (1, 3, False), (2, 3, True), (1, 4, False)):
    proof(P, [HV + "Hypervolume.compute", HV + "Hypervolume._hv_recursive", HV + "Hypervolume._initialize_multilist", HV + "sort_by_dimension", HV + "MultiList.append", HV + "MultiList.extend"]
          + ([HV + "MultiList.remove", HV + "MultiList.reinsert"] if m_ > 2 else []),
          name=f"hypervolume_{n_}_points_{m_}_objectives", assume=TORCH + ["infinity is a real constant larger than every value", f"{n_} points, {m_} objectives" + (" not worse than the reference point" if ab_ else "")])(_hypervolume(n_, m_, ab_))


def _union(y, r, n, m_obj):
    """the volume of the union of the boxes from r to each y, by inclusion and exclusion; orders settled one by one"""
    want = 0
    for k in range(1, n + 1):
        for S in itertools.combinations(range(n), k):
            prod = 1
            for j in range(m_obj):
                lo = y[S[0]][j]
                for i in S[1:]:
                    if y[i][j] < lo:
                        lo = y[i][j]
                d = lo - r[j]
                if not d > 0:
                    d = 0
                prod = prod * d
            want = want + (prod if k % 2 else -prod)
    return want


def _mask(Y):
    """is_non_dominated by its contract (C11): not dominated, the first of equal points"""
    from pyvc.celltorch import CT

    y = Y.n
    n, m_obj = y.shape
    out = []
    for i in range(n):
        dom = [z3.And(*[lift(y[a, k] >= y[i, k]) for k in range(m_obj)], z3.Or(*[lift(y[a, k] > y[i, k]) for k in range(m_obj)])) for a in range(n) if a != i]
        dup = [z3.And(*[lift(y[a, k] == y[i, k]) for k in range(m_obj)]) for a in range(i)]
        out.append(wrap(z3.And(*[z3.Not(d) for d in dom + dup], z3.BoolVal(True))))
    return CT(np.array(out, dtype=object))


def _partition(cls, n, m_obj, how):
    """every point above the reference point that no point of the set dominates is in exactly one cell, all others in none"""

    def run(v):
        from pyvc.celltorch import CT, CellTorch

        B = "utils.multi_objective.box_decompositions."
        mods = [v.mod(B + x) for x in ("box_decomposition", "non_dominated", "utils")]
        v.c.max_paths = 4000
        for q in mods:
            if hasattr(q, "torch"):
                v.stub(q, "torch", CellTorch())
            if hasattr(q, "is_non_dominated"):
                v.stub(q, "is_non_dominated", _mask)
        Base = mods[0].BoxDecomposition
        v.stub(Base, "register_buffer", lambda self, name, t, persistent=True: object.__setattr__(self, name, t))
        y = np.array([[v.real(f"y{i}{j}") for j in range(m_obj)] for i in range(n)], dtype=object).reshape(n, m_obj)
        r = np.array([v.real(f"r{j}") for j in range(m_obj)], dtype=object)
        x = [v.real(f"x{j}") for j in range(m_obj)]
        big = core.POS_INF
        for j in range(m_obj):
            for q in [r[j], x[j]] + [y[i, j] for i in range(n)]:
                v.assume(SymBool(z3.And(lift(q) < big, lift(q) > -big)))
            v.assume(x[j] > r[j])
            for i in range(n):
                v.assume(v.not_(v.eq(x[j], y[i, j])))
        T = lambda a: CT(a)
        K = getattr(mods[1], cls)
        if how != "update":
            d = K(ref_point=T(r), Y=T(y))
        else:
            d = K(ref_point=T(r), Y=T(y[:1]))
            d.update(T(y[1:]))
        if how == "volume":
            return v.ensure("the volume of the union of the boxes from the reference point to the points", v.eq(d.compute_hypervolume().item(), _union(y, r, n, m_obj)))
        b = d.get_hypercell_bounds().n
        dominated = v.or_(*[v.and_(*[y[i, j] > x[j] for j in range(m_obj)]) for i in range(n)], False)
        inside = [v.and_(*[v.and_(b[0, c, j] < x[j], x[j] < b[1, c, j]) for j in range(m_obj)]) for c in range(b.shape[1])]
        v.ensure("a cell has as many coordinates as there are objectives", b.shape[0] == 2 and b.shape[2] == m_obj)
        v.ensure("no cell contains a dominated point", v.implies(dominated, v.not_(v.or_(*inside, False))))
        v.ensure("a point that is not dominated is in a cell", v.implies(v.not_(dominated), v.or_(*inside, False)))
        v.ensure("and in one cell only", v.and_(*[v.not_(v.and_(inside[a], inside[c])) for a in range(len(inside)) for c in range(a)], True))

    return run


CELLS = TORCH[:0] + ["torch tensor operations follow pyvc/celltorch.py", "is_non_dominated by its own contract (C11)", "infinity is a real constant larger than every value"]
for cls_ in ("NondominatedPartitioning", "FastNondominatedPartitioning"):
    for n_, m_, how_ in ((1, 2, "once"), (2, 2, "once"), (3, 2, "once"), (1, 3, "once"), (2, 3, "once"), (2, 2, "update"), (2, 3, "update"), (1, 2, "volume"), (2, 2, "volume"), (1, 3, "volume"), (2, 3, "volume")):
        proof(P, [BD + "non_dominated." + cls_, BD + "box_decomposition.BoxDecomposition", BD + "utils._expand_ref_point", BD + "utils._pad_batch_pareto_frontier"]
              + ([BD + "box_decomposition.FastPartitioning"] if cls_[0] == "F" else []) + ([BD + "utils." + f for f in ("compute_local_upper_bounds", "get_partition_bounds", "update_local_upper_bounds_incremental")] if cls_[0] == "F" and m_ > 2 else []),
              name=f"cells_{cls_[:4]}_{n_}_points_{m_}_objectives{dict(update='_added', volume='_volume', once='')[how_]}", assume=CELLS + [f"{n_} points, {m_} objectives"], thorough=how_ == "volume" and cls_[0] == "F" and n_ * m_ > 4)(_partition(cls_, n_, m_, how_))


def _handed_over(k, fixed):
    def run(v):
        """the criterion of the optimizer: its model, the values the model is trained on, one reference point for both parts, the fixed values"""
        from contracts.opt import optimizer

        m = v.mod("mobo")
        n = v.int("n", 2)
        Y = v.array("Y", (n, k))
        # MinMaxScaler of an objective that varies: from 0 to 1, both attained; minimized ones change their sign
        dirs = [v.bool(f"mini{c}") for c in range(k)]
        b, w = [v.int(f"best{c}", 0) for c in range(k)], [v.int(f"worst{c}", 0) for c in range(k)]
        for c in range(k):
            v.assume(v.and_(b[c] < n, w[c] < n))
            v.assume(v.implies(dirs[c], v.and_(v.eq(v.at(Y, b[c], c), 0), v.eq(v.at(Y, w[c], c), -1), v.forall(n, lambda i: v.and_(v.at(Y, i, c) <= 0, v.at(Y, i, c) >= -1)))))
            v.assume(v.implies(v.not_(dirs[c]), v.and_(v.eq(v.at(Y, b[c], c), 1), v.eq(v.at(Y, w[c], c), 0), v.forall(n, lambda i: v.and_(v.at(Y, i, c) <= 1, v.at(Y, i, c) >= 0)))))
        v.stub(m.BaseMOBO, "y", property(lambda self: Y))
        made = []

        class Part:
            def __init__(self, ref_point, Y):
                self.ref_point, self.Y = ref_point, Y

        class Crit:
            def __init__(self, model, ref_point, partitioning):
                made.append((model, ref_point, partitioning))

            def __call__(self, X):
                self.X = X
                return ("value", X)

        v.stub(m, "NondominatedPartitioning", Part)
        v.stub(m, "EHVI", Crit)
        v.stub(m, "Tensor", lambda a: a)
        o = optimizer(v, m.MOBO, ["p", "q", "r"], minimize=True, n_obj=k)
        o._search_space = type("S", (), {"var_name": ["p", "q", "r"]})()
        val = v.real("fixed")
        f = o._create_acquisition(fixed={"q": val} if fixed else None)
        v.ensure("one criterion", len(made) == 1)
        model, ref, part = made[0]
        v.ensure("with the model of the optimizer", model is o.model)
        i = v.generic(n)
        v.ensure("over the values the model is trained on", v.and_(v.eq(part.Y.shape[0], n), *[v.eq(v.at(part.Y, i, c), v.at(Y, i, c)) for c in range(k)]))
        for c in range(k):
            rc = ref[c]
            v.ensure(f"objective {c}: one reference point", v.eq(rc, part.ref_point[c]))
            v.ensure(f"objective {c}: the best recorded value beats the reference point", v.at(Y, b[c], c) > rc)
        free = [v.real(f"x{i}") for i in range(2 if fixed else 3)]
        _, X = f(list(free))
        want = [free[0], val, free[1]] if fixed else free
        for j in range(3):
            v.ensure(f"variable {j} of the point", v.eq(v.at(X, 0, j), want[j]))

    return run


for k_ in (2, 3):
    for fx_ in (False, True):
        proof(P, ["bayes_optim.mobo.MOBO._create_acquisition", "bayes_optim.mobo.BaseMOBO.ref_point"], name=f"criterion_over_{k_}_objectives" + ("_fixed" if fx_ else ""), timeout=20000,
              assume=["sklearn's MinMaxScaler maps an objective that varies onto [0, 1], attaining both", "torch.Tensor keeps the values (single precision treated as exact)"])(_handed_over(k_, fx_))


# ------------------------------------------------------------------ run-time contracts
def _axes(Y, ref):
    """the coordinates that split the space above ref into cells on which domination is constant"""
    return [sorted({float(ref[k])} | {float(y[k]) for y in Y if y[k] > ref[k]}) for k in range(len(ref))]


def _volume(Y, ref):
    """dominated volume, cell by cell (maximization)"""
    ax, s = _axes(Y, ref), 0.0
    for ix in itertools.product(*[range(len(a) - 1) for a in ax]):
        lo = [ax[k][i] for k, i in enumerate(ix)]
        hi = [ax[k][i + 1] for k, i in enumerate(ix)]
        if any(all(y[k] >= hi[k] for k in range(len(ref))) for y in Y):
            s += float(np.prod(np.array(hi) - np.array(lo)))
    return s


def _points(b, n, m):
    r = b.py
    kind = r.choice(["grid", "grid", "real", "front", "front", "dup"])
    if kind == "front":
        Y = b.rng.normal(size=(n, m))
        Y = np.abs(Y) / np.maximum(np.linalg.norm(Y, axis=1, keepdims=True), 1e-9) * 3
        Y = np.round(Y * 4) / 4 if r.random() < 0.4 else Y
    elif kind == "real":
        Y = b.rng.normal(size=(n, m)) * 2
    else:
        Y = np.array([[float(r.randint(-1, 3)) for _ in range(m)] for _ in range(n)])
    Y = Y.reshape(n, m)
    if kind == "dup" and n > 1:
        Y[r.randrange(n)] = Y[r.randrange(n)]
    ref = np.array([r.choice([-2.0, -0.5, 0.0, 0.0, 0.5, 1.0]) for _ in range(m)])
    return Y, ref


def _size(r, m):
    return r.choice({2: [0, 1, 2, 3, 5, 8, 12], 3: [0, 1, 2, 3, 4, 6, 9], 4: [0, 1, 2, 3, 4], 5: [1, 2, 3]}[m])


@bounded(P, [HV + "Hypervolume.compute", HV + "Hypervolume._hv_recursive", HV + "MultiList.remove", HV + "MultiList.reinsert"], n=10000, n_thorough=80000, budget=80,
         bound="every pair of points of the grid {1,2,3}^3 with a random third one (reference point 0), and random sets of 0-12 points with 2-5 objectives: ties, duplicates, dominated points, points not better than the reference point")
def hypervolume_is_the_dominated_volume(b):
    import torch
    from bayes_optim.utils.multi_objective.hypervolume import Hypervolume

    def ok(Y, ref, tol=1e-9):
        t, rt = torch.tensor(Y, dtype=torch.double), torch.tensor(ref, dtype=torch.double)
        h = Hypervolume(rt)
        got, want = h.compute(t), _volume(Y, ref)
        b.check(abs(got - want) <= tol * (1 + abs(want)), "hypervolume", Y=Y.tolist(), ref=list(ref), got=got, want=want)
        b.check(np.array_equal(t.numpy(), Y) and np.array_equal(h.ref_point.numpy(), ref), "the computation changed its input", Y=Y.tolist(), ref=list(ref))
        b.check(abs(h.compute(t.flip(0)) - want) <= tol * (1 + abs(want)), "hypervolume of the reversed set, computed with the same object", Y=Y.tolist(), ref=list(ref), want=want)

    g = list(itertools.product([1.0, 2.0, 3.0], repeat=3))
    for i in range(0, len(g)):
        for j in range(i, len(g)):
            k = b.py.randrange(len(g))
            ok(np.array([g[i], g[j], g[k]]), np.zeros(3))
    r = b.py
    for case in b.loop():
        m = r.choice([2, 3, 3, 4, 4, 5])
        ok(*_points(b, _size(r, m), m))


def _cells(b, bounds, Y, ref, what):
    """bounds: 2 x cells x m: every cell of the grid above ref lies in exactly one box if it is not dominated, in none otherwise"""
    m = len(ref)
    lo, hi = np.asarray(bounds[0], dtype=float), np.asarray(bounds[1], dtype=float)
    ax = _axes(Y, ref)
    inp = dict(Y=Y.tolist(), ref=list(ref), lower=lo.tolist(), upper=hi.tolist(), kind=what)
    b.check(lo.shape == hi.shape and lo.shape[1] == m, "shape of the bounds", **inp)
    for k in range(m):
        s = set(ax[k]) | {np.inf}
        b.check(all(x in s for x in lo[:, k]) and all(x in s for x in hi[:, k]), "a box bound is no coordinate of the points, the reference point or infinite", **inp)
    mids = [[(a[i] + a[i + 1]) / 2 for i in range(len(a) - 1)] + [a[-1] + 1] for a in ax]
    for p in itertools.product(*mids):
        q = np.array(p)
        n_in = int(np.sum(((lo < q) & (q < hi)).all(axis=1)))
        dom = any((y >= q).all() for y in Y)
        b.check(n_in == (0 if dom else 1), "number of boxes that contain the point", point=list(p), dominated=dom, boxes=n_in, **inp)


@bounded(P, [BD + "non_dominated.NondominatedPartitioning", BD + "non_dominated.FastNondominatedPartitioning", BD + "box_decomposition.BoxDecomposition", BD + "box_decomposition.FastPartitioning",
             BD + "utils.compute_local_upper_bounds", BD + "utils.get_partition_bounds", BD + "utils.update_local_upper_bounds_incremental", BD + "utils._pad_batch_pareto_frontier"], n=900, n_thorough=20000, budget=90,
         bound="random sets of 0-12 points with 2-4 objectives (ties, duplicates, dominated points, points beyond the reference point, empty fronts), given at once, in up to 3 updates, or as a batch of two-objective sets")
def boxes_partition_the_non_dominated_space(b):
    import torch
    from bayes_optim.utils.multi_objective.box_decompositions.non_dominated import FastNondominatedPartitioning, NondominatedPartitioning

    r = b.py
    T = lambda a: torch.tensor(a, dtype=torch.double)
    for case in b.loop():
        m = r.choice([2, 2, 3, 3, 4])
        n = min(_size(r, m), {2: 12, 3: 7, 4: 4}[m])
        Y, ref = _points(b, n, m)
        parts = sorted(r.randint(0, n) for _ in range(r.choice([0, 0, 1, 2])))
        if case % 9 == 0 and m == 2 and n:
            Ys = [Y] + [_points(b, n, m)[0] for _ in range(r.randint(1, 2))]
            for cls in (NondominatedPartitioning, FastNondominatedPartitioning):
                p = cls(ref_point=T(ref), Y=T(np.stack(Ys)))
                B, hv = p.get_hypercell_bounds().numpy(), p.compute_hypervolume().numpy()
                for i, y in enumerate(Ys):
                    lo, hi = B[0, i], B[1, i]
                    ok = (lo < hi).all(axis=1)
                    _cells(b, np.stack([lo[ok], hi[ok]]), y, ref, cls.__name__ + " (batch)")
                    b.check(abs(hv[i] - _volume(y, ref)) <= 1e-9 * (1 + hv[i]), "hypervolume of a batch", Y=y.tolist(), ref=list(ref), got=float(hv[i]), want=_volume(y, ref), kind=cls.__name__)
            continue
        for cls in (NondominatedPartitioning, FastNondominatedPartitioning):
            cuts = [0] + parts + [n]
            chunks = [Y[i:j] for i, j in zip(cuts, cuts[1:])]
            lazy = r.random() < 0.2
            p = cls(ref_point=T(ref)) if lazy else cls(ref_point=T(ref), Y=T(chunks[0]))
            for c in (chunks if lazy else chunks[1:]):
                p.update(T(c))
            what = f"{cls.__name__}, chunks {[len(c) for c in chunks]}"
            _cells(b, p.get_hypercell_bounds().numpy(), Y, ref, what)
            want = {tuple(y) for y in Y.tolist() if all(y[k] > ref[k] for k in range(m)) and not any(all(z[k] >= y[k] for k in range(m)) and z != y for z in Y.tolist())}
            got = [tuple(y) for y in p.pareto_Y.tolist()]
            b.check(set(got) == want and len(got) == len(want), "front", Y=Y.tolist(), ref=list(ref), got=got, want=sorted(want), kind=what)
            hv = float(p.compute_hypervolume())
            b.check(abs(hv - _volume(Y, ref)) <= 1e-9 * (1 + abs(hv)), "hypervolume of the partitioning", Y=Y.tolist(), ref=list(ref), got=hv, want=_volume(Y, ref), kind=what)
            b.check(np.array_equal(p.ref_point.numpy(), ref) and sorted(p.Y.tolist()) == sorted(Y.tolist()), "recorded points or reference point changed", Y=Y.tolist(), ref=list(ref), kind=what)


def _survival_integral(l, u, mu, sd):
    """integral of P(y > t) over [l, u] by quadrature"""
    from scipy.stats import norm

    u = min(u, mu + 10 * sd)
    if u <= l:
        return 0.0
    lo = max(l, mu - 10 * sd)
    s = max(0.0, min(u, lo) - l)  # the probability is one there
    if u > lo:
        x, w = np.polynomial.legendre.leggauss(60)
        for a, c in zip(np.linspace(lo, u, 9)[:-1], np.linspace(lo, u, 9)[1:]):
            t = (c - a) / 2 * x + (a + c) / 2
            s += float((c - a) / 2 * np.sum(w * norm.sf((t - mu) / sd)))
    return s


def _expected(Y, ref, mu, sd):
    """expected hypervolume improvement over Y, cell by cell of the grid spanned by Y and ref"""
    ax = [a + [np.inf] for a in _axes(Y, ref)]
    I = [[_survival_integral(a[i], a[i + 1], mu[k], max(sd[k], 1e-9**0.5)) for i in range(len(a) - 1)] for k, a in enumerate(ax)]
    want = 0.0
    for ix in itertools.product(*[range(len(a) - 1) for a in ax]):
        hi = [ax[k][i + 1] for k, i in enumerate(ix)]
        if not any((y >= np.array(hi)).all() for y in Y):
            want += float(np.prod([I[k][i] for k, i in enumerate(ix)]))
    return want


@bounded(P, [EH + "EHVI.__init__", EH + "EHVI.forward", EH + "EHVI.psi", EH + "EHVI.nu"], n=500, n_thorough=8000, budget=90,
         bound="fronts of 0-6 points with 2-3 objectives, means in and far outside the front, deviations 1e-4..10, against quadrature over the grid cells; relative tolerance 2e-3 (the code predicts in single precision)")
def expected_improvement_is_the_expectation(b):
    import torch
    from bayes_optim.multi_objective import EHVI
    from bayes_optim.utils.multi_objective.box_decompositions.non_dominated import FastNondominatedPartitioning, NondominatedPartitioning

    r = b.py

    class Model:
        def predict(self, X, eval_MSE=False):
            self.X = X
            return self.mean, self.var

    for case in b.loop():
        m = r.choice([2, 2, 3])
        Y, ref = _points(b, r.choice([0, 1, 2, 3, 4, 6]) if m == 2 else r.choice([1, 2, 3]), m)
        cls = r.choice([NondominatedPartitioning, NondominatedPartitioning, FastNondominatedPartitioning])
        part = cls(ref_point=torch.Tensor(ref), Y=torch.Tensor(Y))
        Yr = np.asarray(part.Y.numpy(), dtype=float)
        mod = Model()
        q = r.choice([1, 1, 1, 2, 3])
        mu, sd = b.rng.normal(size=(q, m)) * r.choice([1.0, 2.0]) + r.choice([0.0, 0.0, 2.0]), 10.0 ** b.rng.uniform(-4, 1, size=(q, m))
        mod.mean, mod.var = mu, sd**2
        X = b.rng.uniform(size=(q, 2))
        acq = EHVI(model=mod, ref_point=ref.tolist(), partitioning=part)
        arg = X if q > 1 or r.random() < 0.5 else r.choice([X[0], X[0].tolist()])
        got = np.asarray(acq(arg), dtype=float)
        b.check(got.shape == (q,), "one value per point", got=got, points=q)
        b.check(np.array_equal(np.asarray(mod.X, dtype=float), X), "the model predicts at another point", X=X.tolist(), got=mod.X)
        for p in range(q):
            want = _expected(Yr, ref, mu[p], sd[p])
            b.check(abs(got[p] - want) <= 2e-3 * abs(want) + 1e-4, "expected hypervolume improvement", Y=Yr.tolist(), ref=ref.tolist(), mean=mu[p].tolist(), sd=sd[p].tolist(), got=got[p], want=want, kind=cls.__name__, points=q)


@bounded(P, ["bayes_optim.mobo.MOBO._create_acquisition", "bayes_optim.mobo.BaseMOBO.ref_point", "bayes_optim.mobo.BaseMOBO.y"], n=250, n_thorough=4000, budget=60,
         bound="optimizers with 2-3 objectives, mixed directions, 2-8 recorded points in 1-2 reports (one failed), 2-3 variables of which up to one is fixed; relative tolerance 2e-3 (single precision)")
def criterion_of_the_optimizer(b):
    """the criterion is the expected improvement over the values the model was trained on, at the point with the fixed values filled in"""
    import bayes_optim.search_space as S
    from bayes_optim import MOBO

    r = b.py

    class Model:
        def fit(self, X, y):
            self.y = np.array(y, dtype=float)

        def predict(self, X, eval_MSE=False):
            self.X = X
            k = self.y.shape[1]
            return (self.mean, self.var) if eval_MSE else np.zeros((len(X), k))

    for case in b.loop():
        m, d, n = r.choice([2, 2, 3]), r.randint(2, 3), r.randint(2, 8)
        names = [f"v{i}" for i in range(d)]
        mini = [r.random() < 0.5 for _ in range(m)]
        mod = Model()
        o = MOBO(search_space=S.SearchSpace([S.Real([0, 1], q) for q in names]), obj_fun=None, model=mod, n_obj=m, minimize=mini, max_FEs=99, DoE_size=3)
        scale = [10 ** r.uniform(-2, 3) for _ in range(m)]
        vals = [[r.choice([r.gauss(0, 1), float(r.randint(-2, 2))]) * scale[k] for k in range(m)] for _ in range(n)]
        if any(len({q[k] for q in vals}) == 1 for k in range(m)):
            continue
        cut = r.choice([n, n, max(2, n - 2)])
        for lo, hi in ((0, cut), (cut, n)):
            if hi > lo:
                o.tell([[r.random() for _ in range(d)] for _ in range(lo, hi)], [tuple(q) for q in vals[lo:hi]])
        if r.random() < 0.2:
            o.tell([[r.random() for _ in range(d)]], [tuple([float("nan")] * m)])
        ref = np.asarray(o.ref_point, dtype=np.float32).astype(float)
        Y = mod.y.astype(np.float32).astype(float)
        info = dict(values=vals, minimize=mini, ref=ref.tolist())
        b.check(ref.shape == (m,) and all(ref[k] < Y[:, k].max() for k in range(m)), "the reference point is not beaten by the best value of each objective", **info)
        best = [(min if mini[k] else max)(range(n), key=lambda i: vals[i][k]) for k in range(m)]
        b.check(all(mod.y[best[k], k] == mod.y[:, k].max() for k in range(m)), "the values are compared in another direction", **info)
        fixed = {} if r.random() < 0.5 else {r.choice(names): round(r.random(), 3)}
        mu, sd = b.rng.normal(size=m) * 0.6 + r.choice([0.0, 0.3]), 10.0 ** b.rng.uniform(-2, 0, size=m)
        mod.mean, mod.var = mu.reshape(1, -1), (sd**2).reshape(1, -1)
        f = o._create_acquisition(fixed=fixed or None)
        x = [r.random() for q in names if q not in fixed]
        got = float(np.ravel(np.asarray(f(x), dtype=float))[0])
        full, it = [], iter(x)
        for q in names:
            full.append(fixed[q] if q in fixed else next(it))
        b.check(np.ravel(np.asarray(mod.X, dtype=float)).tolist() == full, "the model predicts at another point", got=np.asarray(mod.X).tolist(), want=full, fixed=fixed, **info)
        want = _expected(Y, ref, mu, sd)
        b.check(abs(got - want) <= 2e-3 * abs(want) + 1e-4, "expected improvement over the recorded values", mean=mu.tolist(), sd=sd.tolist(), got=got, want=want, **info)
