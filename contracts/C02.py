"""C02 constrained sampling: every returned point is feasible and in the declared domain."""
import numpy as np

from pyvc.verify import *
from pyvc.runtime import LoopContract

P = "C02"
SP = "bayes_optim.search_space.search_space.SearchSpace."
SC = "bayes_optim.search_space.samplers.SCMC."
A1 = ["the user's constraint functions are deterministic (a point has one constraint value)"]
A2 = ["math reals; numpy.random.randn/geometric/rand return arbitrary values of their support"]


def _filter(use_h, use_g, scalar):
    def body(v):
        """the final filter keeps exactly the feasible rows of the sampler's output, and at most N of them"""
        m = v.mod("search_space.search_space")
        n, k = v.int("n", 1), v.int("k", 1)
        lb, ub = v.real("lb", lo=-(10**300)), v.real("ub", hi=10**300)
        v.assume(lb < ub)
        tol = v.real("tol", gt=0)
        sp = m.SearchSpace([m.Real([lb, ub], "r"), m.Discrete(["x", "y"], "d")])
        drawn = {}

        class Sampler:
            def __init__(self, space, constraints, *a, **kw):
                pass

            def sample(self, N):
                S = v.array("S", (N, 2), "O")
                drawn["S"], drawn["N"] = S, N
                return S

        v.stub(m, "SCMC", Sampler)
        H = z3.Function("h", Val, INT, REAL)
        G = z3.Function("g", Val, INT, REAL)
        con = lambda F: (lambda x: wrap(F(x._at(0), I(0)))) if scalar else (lambda x: SymArray._make((k,), (lambda r: lambda j: F(r, j))(x._at(0)), "f"))
        kw = {}
        if use_h:
            kw["h"] = con(H)
        if use_g:
            kw["g"] = con(G)
        out = sp.sample(n, tol=tol, **kw)
        q = 1 if scalar else k
        v.ensure("at most the requested number of points", v.len(out) <= n)
        i = v.generic(v.len(out))
        j = v.generic(q)
        x = out._at(i, 0)
        if use_h:
            v.ensure("equality holds within the tolerance", abs(wrap(H(x, j.e))) <= tol)
        if use_g:
            v.ensure("inequality holds", wrap(G(x, j.e)) <= 0)
        r = z3.Int("row")
        S = drawn["S"]
        v.ensure("the point is one the sampler produced",
                 SymBool(z3.Exists([r], z3.And(r >= 0, r < I(drawn["N"]), S._at(r, 0) == out._at(i, 0), S._at(r, 1) == out._at(i, 1)))))

    return body


for _h, _g in ((True, False), (False, True), (True, True)):
    for _s in (True, False):
        proof(P, [SP + "sample"], name="filter_" + ("h" if _h else "") + ("g" if _g else "") + ("_scalar" if _s else "_vector"), assume=A1,
              timeout=15000)(_filter(_h, _g, _s))


def sampler(v, m, sm, precision=None):
    lb, ub = v.real("lb", lo=-(10**300)), v.real("ub", hi=10**300)
    a, b, st = v.int("a"), v.int("b"), v.int("step", 1)
    v.assume(v.and_(lb < ub, a < b))
    sp = m.SearchSpace([m.Discrete(["x", "y", "z"], "d"), m.Real([lb, ub], "r", precision=precision), m.Integer([a, b], "i", step=st)])
    s = sm.SCMC(sp, lambda x: 0)
    return s, sp, (lb, ub, a, b, st)


def domain(v, X, i, D):
    lb, ub, a, b, st = D
    y = v.at(X, i, 2)
    return [("level", v.or_(*[v.eq(v.at(X, i, 0), l) for l in "xyz"])),
            ("real bounds", v.and_(v.at(X, i, 1) >= lb, v.at(X, i, 1) <= ub)),
            ("integer bounds", v.and_(y >= a, y <= b)),
            ("integer grid", v.eq((y - a) % st, 0))]


@proof(P, [SC + "__init__", SC + "_rproposal_real"], assume=A2)
def proposal_real(v):
    m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
    s, sp, D = sampler(v, m, sm)
    n, t = v.int("n", 1), v.int("t", 0)
    X = v.array("X", (n, 3), "O")
    s._rproposal_real(X, t)
    i = v.generic(n)
    v.ensure("inside the bounds", v.and_(v.at(X, i, 1) >= D[0], v.at(X, i, 1) <= D[1]))
    X0 = v.array("X", (n, 3), "O")
    v.ensure("other columns unchanged", v.and_(v.eq(v.at(X, i, 0), v.at(X0, i, 0)), v.eq(v.at(X, i, 2), v.at(X0, i, 2))))


@proof(P, [SC + "__init__", SC + "_rproposal_integer"], assume=A2, timeout=20000)
def proposal_integer(v):
    """proposals stay on the grid a, a+step, ... : an explicit multiple of the step is exhibited"""
    m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
    s, sp, D = sampler(v, m, sm)
    lb, ub, a, b, st = D
    n, t = v.int("n", 1), v.int("t", 0)
    X = v.array("X", (n, 3), "O")
    Q = v.array("Q", (n,), "i")
    v.assume(v.forall(n, lambda i: v.and_(v.at(Q, i) >= 0, a + st * v.at(Q, i) <= b)))
    X[:, 2] = SymArray._make((n,), lambda i: (a + st * wrap(Q._at(i))).e, "i")
    draws = []

    def geometric(p, size=None):
        r = v.array(v.c.name("geo"), tuple(size), "i")
        v.assume(v.forall(n, lambda i: v.at(r, i, 0) >= 1))
        draws.append(r)
        return r

    v.stub(symnp.random, "geometric", geometric)
    s._rproposal_integer(X, t)
    i = v.generic(n)
    y = v.at(X, i, 2)
    q = v.at(Q, i)
    K = v.at(draws[0], i, 0) - v.at(draws[1], i, 0)
    last = sp.data[2]._size - 1  # == (b - a) // step: C01/integer_grid
    v.ensure("inside the bounds", v.and_(y >= a, y <= b))
    for nm, raw in (("g1 - g2", a + st * q + st * K), ("g2 - g1", a + st * q - st * K)):
        hi = a + st * last
        grid = v.or_(v.eq(y, a), v.eq(y, hi), v.eq(y, raw))
        if nm == "g1 - g2":
            v.ensure("below: a whole number of steps above the lower bound", v.implies(raw < a, grid))
            v.ensure("above: a whole number of steps above the lower bound", v.implies(raw > hi, grid))
            v.ensure("inside: a whole number of steps above the lower bound", v.implies(v.and_(raw >= a, raw <= hi), grid))


@proof(P, [SC + "__init__", SC + "_rproposal_discrete"], assume=A2)
def proposal_discrete(v):
    m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
    s, sp, D = sampler(v, m, sm)
    n, t = v.int("n", 1), v.int("t", 0)
    X = v.array("X", (n, 3), "O")
    v.assume(v.forall(n, lambda i: v.or_(*[v.eq(v.at(X, i, 0), l) for l in "xyz"])))
    s._rproposal_discrete(X, t)
    i = v.generic(n)
    v.ensure("a declared level", v.or_(*[v.eq(v.at(X, i, 0), l) for l in "xyz"]))


def _proposal(types):
    def body(v):
        """a proposal moves every column inside its domain (each kernel by its contract) and leaves the current sample as it was"""
        m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
        mk = {"d": lambda j: m.Discrete(["x", "y", "z"], f"d{j}"), "r": lambda j: m.Real([0, 1], f"r{j}"), "i": lambda j: m.Integer([0, 9], f"i{j}")}
        s = sm.SCMC(m.SearchSpace([mk[q](j) for j, q in enumerate(types)]), lambda x: 0)
        k = len(types)
        n, t = v.int("n", 1), v.int("t", 0)
        Dj = [z3.Function(f"D{j}", Val, BOOL) for j in range(k)]
        X = v.array("X", (n, k), "O")
        v.assume(v.forall(n, lambda i: v.and_(*[SymBool(Dj[j](X._at(i, j))) for j in range(k)])))

        def kernel(q):
            def move(self, Y, t):
                for j in [j for j in range(k) if types[j] == q]:
                    F = z3.Function(v.c.name("move"), INT, Val)
                    v.assume(v.forall(n, lambda i: SymBool(Dj[j](F(lift(i))))))
                    Y[:, j] = SymArray._make((n,), F, "O")

            return move

        for name, q in (("_rproposal_real", "r"), ("_rproposal_integer", "i"), ("_rproposal_discrete", "d")):
            v.stub(sm.SCMC, name, kernel(q))
        out = s._rproposal(X, t)
        i = v.generic(n)
        X0 = v.array("X", (n, k), "O")
        v.ensure("one proposal for each point", v.eq(out.shape[0], n))
        for j in range(k):
            v.ensure(f"column {j} in its domain", SymBool(Dj[j](out._at(i, j))))
            v.ensure(f"column {j} of the current sample is unchanged", v.eq(v.at(X, i, j), v.at(X0, i, j)))

    return body


for _t in ("r", "i", "d", "rd", "dri", "iirdd"):
    proof(P, [SC + "_rproposal"], name="proposal_of_all_columns_" + _t, assume=["the kernels by their own contracts (proved above)"])(_proposal(_t))


@proof(P, [SC + "_log_posterior"], assume=["norm.logcdf(z) is an arbitrary function of z"])
def failing_constraint_is_reported(v):
    """a constraint that fails, whichever and however, is reported as ConstraintEvaluationError; one that does not is not"""
    m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
    sp = m.SearchSpace([m.Real([0, 1], "r")])
    fails = [v.bool(f"fails{k}") for k in range(3)]
    kind = [ValueError("a"), ZeroDivisionError("b"), KeyError("c")]
    val = [v.real(f"c{k}") for k in range(3)]

    def con(k):
        def f(x):
            if bool(fails[k]):
                raise kind[k]
            return val[k]

        return f

    s = sm.SCMC(sp, [con(k) for k in range(3)])
    L = z3.Function("logcdf", REAL, REAL)
    v.stub(sm, "norm", type("N", (), {"logcdf": staticmethod(lambda z: SymArray._make(z.shape, lambda i: L(z._at(i)), "f"))}))
    nu = v.real("nu", gt=0)
    x = v.array("x", 1, "O")
    try:
        out = s._log_posterior(x, nu)
    except sm.ConstraintEvaluationError:
        v.ensure("only a failing constraint is reported", v.or_(*fails))
        return
    v.ensure("every failing constraint is reported", v.not_(v.or_(*fails)))
    v.ensure("the sum of the logarithms", v.eq(out, wrap(L(lift(-val[0] / nu)) + L(lift(-val[1] / nu)) + L(lift(-val[2] / nu)))))


MH = {}


@proof(P, [SC + "_metropolis_hastings"], assume=A2 + ["_log_posterior returns an arbitrary number; the proposals are in the domain (proved for each proposal kernel)"],
       loops=MH, timeout=20000)
def metropolis_hastings(v):
    """given proposals in the domain, any number of accept/reject steps keeps every row in the domain;
    the domain of column j is an arbitrary predicate D_j"""
    m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
    s, sp, _ = sampler(v, m, sm)
    n, t = v.int("n", 1), v.int("t", 0)
    s.mh_steps = v.int("steps", 0)
    X = v.array("X", (n, 3), "O")
    nu = v.real("nu", gt=0)
    lp = z3.Function("logpost", INT, REAL)
    Dj = [z3.Function(f"D{j}", Val, BOOL) for j in range(3)]
    inside = lambda Y: v.forall(n, lambda i: v.and_(*[SymBool(Dj[j](Y._at(i, j))) for j in range(3)]))
    v.stub(sm.SCMC, "_log_posterior", lambda self, x, nu: wrap(lp(v.c.fresh_int("lpcall"))))

    def proposal(self, X, t):
        Y = v.array(v.c.name("prop"), (n, 3), "O")
        v.assume(inside(Y))
        return Y

    v.stub(sm.SCMC, "_rproposal", proposal)
    v.assume(inside(X))

    def havoc(st):
        F = z3.Function(v.c.name("X"), INT, INT, Val)
        X._store.elem = lambda i, j: F(i, j)
        return {}

    MH["search_space.samplers:SCMC._metropolis_hastings#1"] = LoopContract(
        havoc, lambda st, i, it: [("every row is in the domain", lift(inside(X)))])
    out = s._metropolis_hastings(X, nu, t)
    i = v.generic(n)
    for j in range(3):
        v.ensure(f"column {j} in its domain", SymBool(Dj[j](out._at(i, j))))
    v.ensure("number of rows", v.eq(out.shape[0], n))


@proof(P, [SC + "sample"], assume=["the initial sample is in the domain (C01); every Metropolis pass keeps it there (proved: metropolis_hastings)"])
def all_temperatures(v):
    m, sm = v.mod("search_space.search_space"), v.mod("search_space.samplers")
    s, sp, _ = sampler(v, m, sm)
    n = v.int("n", 1)
    Dj = [z3.Function(f"D{j}", Val, BOOL) for j in range(3)]
    inside = lambda Y: v.forall(n, lambda i: v.and_(*[SymBool(Dj[j](Y._at(i, j))) for j in range(3)]))

    def fresh(*a, **k):
        Y = v.array(v.c.name("Y"), (n, 3), "O")
        v.assume(inside(Y))
        return Y

    def mh(self, X, nu, t):
        v.ensure("precondition of the Metropolis pass: rows in the domain", inside(X))
        return fresh()

    v.stub(sm.SCMC, "_metropolis_hastings", mh)
    v.stub(type(sp), "_sample", lambda self, N, method=None: fresh())
    out = s.sample(n)
    i = v.generic(n)
    for j in range(3):
        v.ensure(f"column {j} in its domain", SymBool(Dj[j](out._at(i, j))))
    v.ensure("number of rows", v.eq(out.shape[0], n))


@bounded(P, [SP + "sample", SC + "sample", SC + "_rproposal", SC + "_metropolis_hastings", SC + "_log_posterior"], n=40, n_thorough=3000,
         bound="random mixed spaces of 1-4 variables, N in 1..15, random linear/level constraints", budget=60)
def constrained_samples(b):
    import bayes_optim.search_space as S
    from contracts import gen

    for _ in b.loop():
        r = b.rng
        ss = gen.specs(r, hi=5)
        sp = gen.space(ss, S)
        n = int(r.choice([1, 2, 5, 10, 15]))
        nums = [j for j, s in enumerate(ss) if s["type"] in ("Real", "Integer")]
        cats = [j for j, s in enumerate(ss) if s["type"] not in ("Real", "Integer")]
        tol = float(r.choice([1e-2, 0.1, 0.5]))
        g = h = None
        cs = []
        if nums and r.rand() < 0.8:
            for j in nums:
                lb, ub = ss[j]["bounds"]
                c = lb + r.uniform(0.3, 0.9) * (ub - lb)
                sg = r.choice([-1, 1])
                cs.append((j, c, sg))
        bad = [(j, r.choice(len(ss[j]["bounds"]))) for j in cats[:1]] if r.rand() < 0.5 else []
        bad = [(j, S.SearchSpace([gen.build(ss[j], S)]).data[0].bounds[int(k)]) for j, k in bad]

        def G(x):
            return [sg * (x[j] - c) for j, c, sg in cs] + [1.0 if x[j] == lv else -1.0 for j, lv in bad]

        scalar = r.rand() < 0.3
        if cs or bad:
            g = (lambda x: max(G(x))) if scalar else G
        if nums and r.rand() < 0.4:
            j0 = nums[0]
            c0 = float(np.mean(ss[j0]["bounds"]))
            w = 0.4 * (ss[j0]["bounds"][1] - ss[j0]["bounds"][0])
            hv = lambda x: max(abs(x[j0] - c0) - w, 0) / (w * 20)
            h = hv if scalar else (lambda x: [hv(x)])
        if g is None and h is None:
            continue
        X = sp.sample(n, g=g, h=h, tol=tol)
        inp = dict(specs=ss, n=n, cs=cs, bad=bad, h=h is not None, tol=tol, X=X)
        b.check(len(X) <= n, "more points than requested", **inp)
        b.check(gen.bad_member(ss, X) is None, "a constrained sample lies outside the domain", bad_=gen.bad_member(ss, X), **inp)
        for x in X:
            if g is not None:
                b.check(np.all(np.asarray(g(x)) <= 0), "an inequality constraint is violated", x=x, gx=g(x), **inp)
            if h is not None:
                b.check(np.all(np.abs(h(x)) <= tol), "an equality constraint is violated", x=x, hx=h(x), **inp)
        if h is None and g is not None and not bad and len(cs) == 1 and n >= 5:
            b.check(len(X) > 0, "no point found in a half space", **inp)


@bounded(P, [SP + "sample", SC + "_log_posterior"], n=150, n_thorough=1200, bound="constraint functions that raise", budget=20)
def failing_constraints(b):
    """an error in the user's constraint is reported as such, never swallowed"""
    import bayes_optim.search_space as S
    from bayes_optim.utils.exception import ConstraintEvaluationError

    def boom(x):
        raise RuntimeError("user error")

    for i in b.loop():
        sp = S.RealSpace([[0, 1]] * (1 + i % 3))
        for kw in ({"g": boom}, {"h": boom}):
            try:
                sp.sample(5, **kw)
                b.check(False, "an error in a constraint function was swallowed", kw=list(kw))
            except ConstraintEvaluationError:
                pass
