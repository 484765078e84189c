"""C01 sampling stays inside the declared domain: bounds, integer grid, levels, precision, shape."""
import numpy as np

from pyvc.verify import *

P = "C01"
SP = "bayes_optim.search_space.search_space."
VR = "bayes_optim.search_space.variable."
ASSUME = ["math reals: rounding errors of (ub-lb)*u+lb and of exp/log are not modelled (bounded check only)",
          "numpy.random.rand/randint, pyDOE.lhs and i4_sobol_generate return values in [0,1) / [low,high)"]


def real_space(v, m, dim, precision=None):
    """a RealSpace of `dim` (symbolic) linear-scale variables with arbitrary finite bounds"""
    lb, ub = v.array("lb", dim), v.array("ub", dim)
    v.assume(v.forall(dim, lambda i: v.at(lb, i) < v.at(ub, i)))

    def var(i):
        r = object.__new__(m.Real)
        r.__dict__.update(name="r", bounds=(v.at(lb, i), v.at(ub, i)), default_value=None, precision=precision, conditions=None,
                          action=None, _scale="linear", _bounds_transformed=(v.at(lb, i), v.at(ub, i)))
        r._trans = r._inv_trans = m.identity if hasattr(m, "identity") else (lambda x: x)
        return r

    s = object.__new__(m.RealSpace)
    s.__dict__.update(data=SymSeq(dim, var), dim=dim, _random_seed=None, _var_name=[], _var_type=[], _bounds=[], structure=[])
    return s, lb, ub


def inside(v, out, n, dim, lb, ub):
    v.ensure("shape", v.and_(v.eq(out.shape[0], n), v.eq(out.shape[1], dim)))
    i, j = v.generic(n), v.generic(dim)
    v.ensure("not below the lower bound", v.at(out, i, j) >= v.at(lb, j))
    v.ensure("not above the upper bound", v.at(out, i, j) <= v.at(ub, j))


@proof(P, [SP + "RealSpace._sample", SP + "RealSpace.round", SP + "RealSpace.to_linear_scale", VR + "Real.round", VR + "Real.to_linear_scale"], assume=ASSUME)
def real_uniform(v):
    m = v.mod("search_space.search_space")
    n, dim = v.int("n", 1), v.int("dim", 1)
    s, lb, ub = real_space(v, m, dim)
    inside(v, s._sample(n, "uniform"), n, dim, lb, ub)


@proof(P, [SP + "RealSpace._sample", VR + "Real.round"], assume=ASSUME)
def real_uniform_precision(v):
    m = v.mod("search_space.search_space")
    n, dim = v.int("n", 1), v.int("dim", 1)
    s, lb, ub = real_space(v, m, dim, precision=2)
    inside(v, s._sample(n, "uniform"), n, dim, lb, ub)


@proof(P, [SP + "RealSpace._sample"], assume=ASSUME)
def real_lhs(v):
    m = v.mod("search_space.search_space")
    n, dim = v.int("n", 2), v.int("dim", 1)
    s, lb, ub = real_space(v, m, dim)
    v.stub(m, "lhs", lambda d, samples=None, criterion=None: unit(v, samples, d))
    inside(v, s._sample(n, "LHS"), n, dim, lb, ub)


@proof(P, [SP + "RealSpace._sample"], assume=ASSUME)
def real_sobol(v):
    m = v.mod("search_space.search_space")
    n, dim = v.int("n", 1), v.int("dim", 1)
    s, lb, ub = real_space(v, m, dim)
    v.stub(m, "i4_sobol_generate", lambda d, N: unit(v, N, d))
    inside(v, s._sample(n, "sobol"), n, dim, lb, ub)


def unit(v, n, d):
    u = v.array(v.c.name("unit"), (n, d))
    v.assume(v.forall(n, lambda i: v.forall(d, lambda j: v.and_(v.at(u, i, j) >= 0, v.at(u, i, j) < 1))))
    return u


@proof(P, [VR + "Integer.__init__", VR + "_Discrete.sample"])
def integer_grid(v):
    """every drawn value is lb + k*step inside [lb, ub]"""
    m = v.mod("search_space.variable")
    lb, ub, step, n = v.int("lb"), v.int("ub"), v.int("step", 1), v.int("n", 1)
    v.assume(lb < ub)
    x = m.Integer([lb, ub], "i", step=step)
    out = x.sample(n)
    v.ensure("number of values", v.eq(v.len(out), n))
    i = v.generic(n)
    y = v.at(out, i)
    v.ensure("at least lb", y >= lb)
    v.ensure("at most ub", y <= ub)
    v.ensure("on the grid", v.eq((y - lb) % step, 0))
    v.ensure("the last grid value can be reached", v.eq(x._size, (ub - lb) // step + 1))


@proof(P, [VR + "Discrete.__init__", VR + "_Discrete.sample", VR + "_gen_map_func"])
def discrete_levels(v):
    m = v.mod("search_space.variable")
    n = v.int("n", 1)
    for k in (1, 2, 5):
        levels = [f"L{i}" for i in range(k)]
        for cls in (m.Discrete, m.Ordinal):
            x = cls(levels)
            out = x.sample(n)
            v.ensure(f"{cls.__name__}{k}: number of values", v.eq(v.len(out), n))
            i = v.generic(n)
            y = v.at(out, i)
            v.ensure(f"{cls.__name__}{k}: a declared level", v.or_(*[v.eq(y, l) for l in levels]))


@proof(P, [VR + "Real.scale", VR + "Real.to_linear_scale", SP + "RealSpace._sample"], assume=ASSUME, timeout=20000)
def log_scale(v):
    m = v.mod("search_space.search_space")
    lb, ub, n = v.real("lb", gt=0), v.real("ub"), v.int("n", 1)
    v.assume(v.and_(lb >= 1, lb < ub, ub <= 1000000))
    s = m.RealSpace([[lb, ub]], "x", scale="log")
    out = s._sample(n, "uniform")
    i = v.generic(n)
    v.ensure("not below lb", v.at(out, i, 0) >= lb)
    v.ensure("not above ub", v.at(out, i, 0) <= ub)


@proof(P, [SP + "RealSpace._sample"], assume=ASSUME)
def lhs_strata(v):
    """a Latin hypercube on the unit cube stays one on the box: slice k of [0,1] is mapped into slice k of [lb,ub]"""
    m = v.mod("search_space.search_space")
    n, dim = v.int("n", 2), v.int("dim", 1)
    s, lb, ub = real_space(v, m, dim)
    u = unit(v, n, dim)
    v.stub(m, "lhs", lambda d, samples=None, criterion=None: u)
    out = s._sample(n, "LHS")
    i, j = v.generic(n), v.generic(dim)
    k = v.int("k", 0)
    v.assume(v.and_(k < n, v.at(u, i, j) * n >= k, v.at(u, i, j) * n < k + 1))
    w = v.at(ub, j) - v.at(lb, j)
    y = (v.at(out, i, j) - v.at(lb, j)) * n
    v.ensure("slice lower edge", y >= w * k)
    v.ensure("slice upper edge", y < w * (k + 1))


def _mixed(perm):
    def mixed_columns(v):
        """each column of a mixed sample obeys the domain of the variable at that position, whatever the order of the types"""
        m = v.mod("search_space.search_space")
        n = v.int("n", 1)
        lb, ub = v.real("lb", lo=-(10**300)), v.real("ub", hi=10**300)
        a, b2, st = v.int("a"), v.int("b"), v.int("step", 1)
        v.assume(v.and_(lb < ub, a < b2))
        lv = ["x", "y", "z"]
        vs = [m.Real([lb, ub], "r"), m.Integer([a, b2], "i", step=st), m.Discrete(lv, "d"), m.Bool("b"), m.Ordinal([2, 5, 9], "o")]
        sp = m.SearchSpace([vs[p] for p in perm])
        X = sp.sample(n)
        v.ensure("shape", v.and_(v.eq(X.shape[0], n), v.eq(X.shape[1], 5)))
        g = v.generic(n)
        for col, p in enumerate(perm):
            y = v.at(X, g, col)
            if p == 0:
                v.ensure("real bounds", v.and_(y >= lb, y <= ub))
            elif p == 1:
                v.ensure("integer bounds", v.and_(y >= a, y <= b2))
                v.ensure("integer grid", v.eq((y - a) % st, 0))
            elif p == 2:
                v.ensure("level", v.or_(*[v.eq(y, l) for l in lv]))
            elif p == 3:
                v.ensure("bool", v.or_(v.eq(y, True), v.eq(y, False)))
            else:
                v.ensure("ordinal", v.or_(*[v.eq(y, l) for l in (2, 5, 9)]))

    return mixed_columns


for _perm in ([0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [1, 0, 4, 2, 3], [3, 4, 1, 2, 0]):
    proof(P, [SP + "SearchSpace.sample", SP + "SearchSpace._sample", SP + "_DiscreteSpace._sample", VR + "_Discrete.sample",
              SP + "SearchSpace.__getitem__"], name="mixed_columns_" + "".join(map(str, _perm)), assume=ASSUME, timeout=20000)(_mixed(_perm))


@bounded(P, [SP + "SearchSpace.sample", SP + "SearchSpace._sample", SP + "RealSpace._sample", SP + "_DiscreteSpace._sample", VR + "Real.scale"],
         n=3000, n_thorough=24000, bound="random mixed spaces of 1-5 variables, N in 1..40, uniform/LHS/sobol", budget=40)
def sampled_points_in_domain(b):
    import bayes_optim.search_space as S
    from contracts import gen

    for _ in b.loop():
        ss = gen.specs(b.rng)
        sp = gen.space(ss, S)
        n = int(b.rng.choice([1, 2, 3, 7, 40]))
        method = str(b.rng.choice(["uniform", "LHS", "sobol"]))
        X = sp.sample(n, method)
        b.check(X.shape == (n, len(ss)), "shape of the sample", specs=ss, n=n, method=method, shape=X.shape)
        b.check(gen.bad_member(ss, X) is None, "a sampled value lies outside its variable's domain", specs=ss, n=n, method=method, bad=gen.bad_member(ss, X))
        if len(ss) > 1:
            k = int(b.rng.randint(1, len(ss)))
            Y = sp[k:].sample(n, method)
            b.check(gen.bad_member(ss[k:], Y) is None, "a value sampled from a slice lies outside its domain", specs=ss[k:], n=n, bad=gen.bad_member(ss[k:], Y))


@bounded(P, [VR + "_Discrete.sample", VR + "Integer.__init__", SP + "RealSpace._sample"], n=300, n_thorough=2400,
         bound="random variables; 4000 draws (a level is missed with probability < 1e-40); LHS with N in 2..30", budget=40)
def every_level_is_reachable(b):
    import bayes_optim.search_space as S
    from contracts import gen

    for _ in b.loop():
        s = gen.MAKERS[str(b.rng.choice(["Integer", "Discrete", "Bool", "Subset"]))](b.rng)
        s["name"] = "x"
        var = gen.build(s, S)
        seen = set(var.sample(4000))
        t = s["type"]
        want = (set(range(s["bounds"][0], s["bounds"][1] + 1, s["step"])) if t == "Integer" else {False, True} if t == "Bool"
                else gen.subset_levels(s["bounds"]) if t == "Subset" else set(s["bounds"]))
        b.check(seen == want, "some admissible value is never drawn, or a foreign one is", spec=s, missing=want - seen, foreign=seen - want)
        n, dim = int(b.rng.randint(2, 30)), int(b.rng.randint(1, 4))
        lb = b.rng.uniform(-5, 5, dim)
        ub = lb + b.rng.uniform(0.1, 10, dim)
        X = S.RealSpace([[l, u] for l, u in zip(lb, ub)]).sample(n, "LHS")
        U = (X.astype(float) - lb) / (ub - lb) * n
        b.check(all(sorted(np.clip(np.floor(U[:, j] + 1e-9), 0, n - 1)) == list(range(n)) for j in range(dim)),
                "a Latin hypercube sample has an empty or doubly used slice", n=n, lb=lb, ub=ub, U=U)
        R = S.RealSpace([[0.0, 1.0]]).sample(500).astype(float)
        b.check(R.min() < 0.1 and R.max() > 0.9, "uniform samples do not reach both ends", lo=R.min(), hi=R.max())
