"""C07 every proposed candidate is admissible: domain, fixed values, novelty, constraints, number."""
import pickle

import numpy as np

from pyvc.runtime import LoopContract
from pyvc.verify import *
from contracts.opt import *

P = "C07"
BO_ = "bayes_optim.base.BaseBO."
B2 = "bayes_optim.bayes_opt."
NAMES = ["p", "q"]


class SurrogateG(Surrogate):
    """with a gradient, so that L-BFGS-B is the default inner optimizer"""

    def gradient(self, x):
        x = np.asarray(x, float).ravel()
        g, h = [], 1e-6
        for j in range(len(x)):
            e = np.zeros(len(x))
            e[j] = h
            a, c = self.predict(np.array([x + e]), True), self.predict(np.array([x - e]), True)
            g.append([(float(np.ravel(a[k])[0]) - float(np.ravel(c[k])[0])) / (2 * h) for k in (0, 1)])
        g = np.array(g)
        return g[:, :1], g[:, 1:]


@bounded(P, [BO_ + "ask", BO_ + "create_DoE", BO_ + "arg_max_acquisition", B2 + "BO.pre_eval_check", B2 + "ParallelBO._batch_arg_max_acquisition", B2 + "SelfAdaptiveBO._batch_arg_max_acquisition",
             "bayes_optim.acquisition.optim.argmax_restart", "bayes_optim.extension.MultiAcquisitionBO._batch_arg_max_acquisition"], n=350, n_thorough=8000, budget=150,
         bound="random mixed spaces of 1-5 variables, 0-12 recorded points, all acquisition functions and inner optimizers, fixed variables, inequality constraints, batches of 1-4, list and dictionary points")
def proposals(b):
    import bayes_optim.search_space as S
    from bayes_optim import BO, AnnealingBO, NoisyBO, ParallelBO
    from bayes_optim.bayes_opt import SelfAdaptiveBO
    from bayes_optim.extension import MultiAcquisitionBO
    from contracts import gen

    r = b.py
    for case in b.loop():
        kinds = r.choice([("Real",), ("Real", "Integer"), ("Integer", "Discrete", "Bool"), ("Real", "Integer", "Discrete", "Bool")])
        ss = gen.specs(b.rng, kinds=kinds, hi=5)
        real = all(s["type"] == "Real" for s in ss)
        cont = [s["name"] for s in ss if s["type"] == "Real" and s["precision"] is None and s["scale"] == "linear"]
        sp = gen.space(ss, S)
        if r.random() < 0.3:
            sp.random_seed = r.randrange(10**6)
        names = list(sp.var_name)
        cls = r.choice([BO, BO, BO, ParallelBO, ParallelBO, AnnealingBO, NoisyBO, SelfAdaptiveBO, MultiAcquisitionBO])
        et, mini = r.choice(["list", "dict"]), r.random() < 0.5
        k = 1 if cls is BO else r.randint(2, 4)
        opts = dict(AQ)
        if real:
            opt = r.choice([None, "BFGS", "OnePlusOne_Cholesky_CMA", "MIES"])
        else:
            opt = r.choice([None, "MIES"])
        if opt:
            opts["optimizer"] = opt
        kw = dict(search_space=sp, obj_fun=None, model=(SurrogateG() if real and r.random() < 0.7 or opt == "BFGS" else Surrogate()), eval_type=et, minimize=mini, max_FEs=100, DoE_size=r.randint(2, 6),
                  acquisition_optimization=opts)
        if cls is BO:
            kw["acquisition_fun"] = r.choice(["EI", "PI", "UCB", "MGFI", "EpsilonPI"])
        else:
            kw["n_point"] = k
        g = None
        if cont and r.random() < 0.35:
            c = r.choice(cont)
            i = names.index(c)
            lo, hi = ss[i]["bounds"]
            cut = lo + r.uniform(0.4, 0.9) * (hi - lo)
            if et == "dict":
                g = lambda x, c=c, cut=cut: x[c] - cut
            else:
                g = (lambda x, i=i, cut=cut: x[i] - cut) if r.random() < 0.5 else (lambda x, i=i, cut=cut: np.array([x[i] - cut, -1.0]))
            g = _wrapg(g)
            kw["ineq_fun"] = g
        o = cls(**kw)
        data = []
        info = dict(space=str(ss), cls=cls.__name__, optimizer=o._optimizer, fun=o._acquisition_fun, et=et, minimize=mini, constraint=g is not None)
        for t in range(r.randint(1, 3)):
            fixed = None
            if r.random() < 0.35 and len(names) > 1:
                sub = r.sample([n for n in names], r.randint(1, len(names) - 1))
                full = sp.sample(1).tolist()[0]
                fixed = {n: full[names.index(n)] for n in sub if g is None or n not in cont}
                fixed = fixed or None
            n = r.choice([None, None, 1, 3]) if cls is not BO else r.choice([None, None, 1])
            try:
                X = o.ask(n_point=n, fixed=fixed) if fixed is not None else o.ask(n)
            except Exception as e:
                free = [q for q in cont if not fixed or q not in fixed]
                if type(e).__name__ == "AskEmptyError" and (not free or g is not None):
                    break
                if type(e).__name__ == "FlatFitnessError":
                    break
                raise
            rows = [[x[q] for q in names] for x in X] if et == "dict" else [list(x) for x in X]
            q = dict(info, fixed=fixed, requested=n, round=t)
            if et == "dict":
                b.check(all(sorted(x) == sorted(names) for x in X), "names of a proposed point", got=X, **q)
            bad = gen.bad_member(ss, rows)
            b.check(bad is None, "a candidate is outside the declared domain", bad=bad, got=rows, **q)
            if fixed:
                b.check(all(row[names.index(m)] == val for row in rows for m, val in fixed.items()), "a fixed variable has another value", got=rows, **q)
            want = n if n is not None else (o.DoE_size if not data else k)
            b.check(1 <= len(rows) <= want, "more candidates than requested", got=len(rows), want=want, **q)
            free = [m for m in cont if not fixed or m not in fixed]
            if free and g is None:
                b.check(len(rows) == want, "number of candidates", got=len(rows), want=want, **q)
            if g is not None:
                vals = [np.max(g(dict(zip(names, row)) if et == "dict" else row)) for row in rows]
                b.check(max(vals) <= 1e-12, "a candidate violates the constraint", got=rows, values=vals, **q)
            if cls is not NoisyBO:
                for row in rows:
                    b.check(not any(_near(row, old, ss) for old in data), "a candidate was evaluated before", got=row, data=data[:5], **q)
            vals = [r.uniform(-3, 3) for _ in rows]
            o.tell(X, vals)
            data += rows


def _wrapg(g):
    def f(x):
        return g(x)

    return f


def _near(a, c, ss):
    return all((abs(float(x) - float(y)) <= 1e-8 + 1e-5 * abs(float(x)) * 0.999 and abs(float(x) - float(y)) <= 1e-8 + 1e-5 * abs(float(y)) * 0.999) if s["type"] == "Real" else x == y for x, y, s in zip(a, c, ss))


def _space(v, types):
    """a search space of len(types) variables by its observable descriptions"""

    class Sp:
        var_name = list(NAMES[: len(types)])
        real_id = [i for i, t in enumerate(types) if t == "r"]
        integer_id = [i for i, t in enumerate(types) if t == "i"]
        categorical_id = [i for i, t in enumerate(types) if t == "c"]

    return Sp()


CHK = {}


def _check(types, has_data):
    def body(v):
        m, sm = v.mod("bayes_opt"), v.mod("solution")
        n, N = v.int("n", 1), v.int("N", 1)
        o = optimizer(v, m.BO, NAMES)
        o._search_space = _space(v, types)
        o.r_index, o.i_index, o.d_index = o._search_space.real_id, o._search_space.integer_id, o._search_space.categorical_id
        X = v.array("X", (n, 2), "O")
        Q = sm.Solution(X, var_name=NAMES, n_obj=1)
        D = None
        if has_data:
            s, D = solutions(v, "d", N, NAMES)
            o.data = s
        def near(a, c, k):
            if types[k] == "r":
                x, y = to_r(a), to_r(c)
                return z3.If(x - y >= 0, x - y, y - x) <= z3.RealVal("1/100000000") + z3.RealVal("1/100000") * z3.If(y >= 0, y, -y)
            return core.eq(lift(a), lift(c))

        # ghost: an arbitrary recorded point, or an arbitrary other point of the batch
        if has_data:
            J = v.generic(n + N, "L")
            v.assume(J >= n)
            other = lambda k: v.at(D["X"], J - n, k)
        else:
            J = v.generic(n, "J")
            other = lambda k: v.at(X, J, k)

        def fresh(z):
            return z3.Or(J.e == z, z3.Not(z3.And(*[near(other(k), v.at(X, SymNum(z), k), k) for k in range(2)])))

        def seq(st):
            return [(k, x) for k, x in st.items() if isinstance(x, (list, SymSeq)) and k != "X"]

        def havoc(st):
            c = v.int(v.c.name("c"), 0)
            F = z3.Function(v.c.name("F"), INT, INT)
            return {k: SymSeq(c, lambda i: wrap(F(i))) for k, _ in seq(st)}

        def inv(st, i, it):
            out, ie = [], core.to_int(lift(i))
            for nm, lst in seq(st):
                a = z3.Int(v.c.name("a"))
                ln = v.len(lst)
                el = lambda z: z3.IntVal(0) if _empty(ln) else core.to_int(lift(v.at(lst, SymNum(z))))
                out.append(("the rows kept are rows of the batch that repeat neither a recorded point nor another row", z3.ForAll([a], z3.Implies(in_range(a, ln), z3.And(el(a) >= 0, el(a) < ie, fresh(el(a)))))))
            return out

        CHK["bayes_opt:BO.pre_eval_check#1"] = LoopContract(havoc, inv)
        r = o.pre_eval_check(Q)
        k = v.generic(v.len(r))
        a = z3.Int("src")
        v.ensure("every returned point is one of the proposed ones and differs from every other one of them and every recorded one", SymBool(z3.Exists([a], z3.And(
            in_range(a, n), z3.Or(a == J.e, z3.Not(z3.And(*[near(other(c), v.at(r, k, c), c) for c in range(2)]))), *[core.eq(lift(v.at(r, k, c)), lift(v.at(X, SymNum(a), c))) for c in range(2)]))))

    return body


def _empty(n):
    return z3.is_int_value(z3.simplify(lift(n))) and z3.simplify(lift(n)).as_long() == 0


def to_r(x):
    return core.to_real(lift(x))


for types in ("rr", "ri", "ic"):
    for has in (True, False):
        proof(P, [B2 + "BO.pre_eval_check"], name=f"no_repeated_point_{types}_{'data' if has else 'first'}", loops=CHK, timeout=30000)(_check(types, has))


def rows(v, nm, n):
    """a list of n points (rows of two values)"""
    A = v.array(nm, (n, 2), "O")
    return A, SymSeq(n, lambda i: SymSeq(2, lambda j, i=i: wrap(A._snapshot()(i, j))))


ASK = {}


def _ask(fitted, given, has_data):
    def body(v):
        m = v.mod("base")
        o = optimizer(v, m.BaseBO, NAMES, n_point=v.int("npoint", 1), _DoE_size=v.int("doe", 1))
        o.model = Model(fitted)
        o._search_space = _space(v, "rr")
        N = v.int("N", 1)
        if has_data:
            s, D = solutions(v, "d", N, NAMES)
            o.data = s
        v.stub(m.BaseBO, "_to_pheno", lambda self, x: x)
        n = v.int("n", 1) if given else None
        want = n if given else (o.n_point if fitted else o._DoE_size)
        fixed = {"q": v.real("qv")}
        log = []
        c1, c2, c3 = v.int("c1", 0), v.int("c2", 0), v.int("c3", 0)
        A, As = rows(v, "A", c1)
        K, Ks = rows(v, "K", c2)
        R, Rs = rows(v, "R", c3)
        v.assume(c2 <= c1)

        def argmax(self, n_point=None, return_value=False, fixed=None):
            log.append(("argmax", n_point, fixed))
            return As

        def check(self, X):
            log.append(("check", X))
            return Ks

        def doe(self, n_point, fixed=None):
            log.append(("doe", n_point, fixed))
            v.assume(c3 <= n_point)
            return Rs

        v.stub(m.BaseBO, "arg_max_acquisition", argmax)
        v.stub(m.BaseBO, "pre_eval_check", check)
        v.stub(m.BaseBO, "create_DoE", doe)
        v.assume(c1 <= want)
        v.assume(c2 + c3 > 0 if fitted else c3 > 0)
        r = o.ask(n, fixed)
        kinds = [x[0] for x in log]
        used_doe = "doe" in kinds
        if fitted:
            v.ensure("the candidates come from the acquisition search and are checked", kinds[:2] == ["argmax", "check"])
            v.ensure("requested number", v.eq(log[0][1], want))
            v.ensure("fixed values handed on", log[0][2] == fixed)
            v.ensure("exactly the proposed candidates are checked", log[1][1] is As)
            v.ensure("random points fill up exactly the missing ones", v.eq(log[2][1], want - c2) if used_doe else c2 >= want)
            n0 = c2
        else:
            v.ensure("initial design", kinds == ["doe"])
            v.ensure("its size", v.eq(log[0][1], want))
            n0 = 0
        if used_doe:
            v.ensure("fixed values handed on to the random points", log[-1][2] == fixed)
        n1 = c3 if used_doe else 0
        v.ensure("number of candidates", v.eq(v.len(r), n0 + n1))
        v.ensure("never more than requested", v.len(r) <= want)
        i = v.generic(v.len(r))
        for k in range(2):
            if fitted:
                v.ensure(f"checked candidates come first, unchanged ({k})", v.implies(i < c2, v.eq(v.at(r, i, k), v.at(K, i, k))))
            if used_doe:
                v.ensure(f"then the random points ({k})", v.implies(i >= n0, v.eq(v.at(r, i, k), v.at(R, i - n0, k))))

    return body


for fit in (True, False):
    for given in (True, False):
        for hd in (True, False):
            if hd or not fit:
                proof(P, [BO_ + "ask"], name=f"ask_{'model' if fit else 'initial'}_{'n' if given else 'default'}_{'data' if hd else 'first'}")(_ask(fit, given, hd))


DOE = {}


@proof(P, [BO_ + "create_DoE"], loops=DOE, assume=["sampling (C01, C02), rounding (C01), filling in fixed values (C15) and the duplicate check (no_repeated_point) follow their own contracts"])
def random_points_are_checked(v):
    m = v.mod("base")
    VAL = core.Val
    ok = z3.Function("checked", VAL, VAL, BOOL)
    o = optimizer(v, m.BaseBO, NAMES)
    n0 = v.int("n", 0)
    fixed = {"q": v.real("qv")}
    log = []

    class Sub:
        def sample(self, n, method=None, h=None, g=None, **kw):
            v.ensure("as many points as are missing are drawn", v.and_(n >= 1, n <= n0))
            v.ensure("no constraint is dropped", (h is None) == (o._h is None) and (g is None) == (o._g is None))
            k = v.int(v.c.name("got"), 0)
            v.assume(k <= n)
            A, s = rows(v, v.c.name("S"), k)
            log.append(s)

            class R_:
                def tolist(self):
                    return s

            return R_()

    class Sp:
        var_name = NAMES

        def filter(self, keys, invert=False):
            v.ensure("only the free variables are sampled", invert is True and list(keys) == ["q"])
            return Sub()

        def round(self, X):
            v.ensure("points are rounded after the fixed values are filled in", X is log[-1][1])
            log.append(("round", X))
            return X

    o._search_space = Sp()
    v.stub(m.BaseBO, "search_space", o._search_space)

    def fillin(X, f, sp):
        v.ensure("the sampled points get the fixed values", X is log[-1] and f == fixed and sp is o._search_space)
        A, s = rows(v, v.c.name("F"), v.len(X))
        log.append(("fill", s))
        return s

    v.stub(m, "fillin_fixed_value", fillin)

    def check(self, X):
        v.ensure("exactly the completed points are checked", X is log[-1][1])
        k = v.int(v.c.name("new"), 0)
        v.assume(k <= v.len(X))
        A, s = rows(v, v.c.name("C"), k)
        f = A._snapshot()
        i = z3.Int(v.c.name("i"))
        v.c.assume(z3.ForAll([i], z3.Implies(in_range(i, k), ok(core.to_val(f(i, z3.IntVal(0))), core.to_val(f(i, z3.IntVal(1)))))))
        return s

    v.stub(m.BaseBO, "pre_eval_check", check)

    def names(st):
        seqs = [k for k, x in st.items() if isinstance(x, (list, SymSeq)) and k not in ("X",)]
        ints = [k for k, x in st.items() if k == "n_point"]
        return seqs, ints

    def all_ok(s):
        i = z3.Int(v.c.name("i"))
        if _empty(v.len(s)):
            return z3.BoolVal(True)
        at = lambda k: core.to_val(lift(v.at(v.at(s, SymNum(i)), k)))
        return z3.ForAll([i], z3.Implies(in_range(i, v.len(s)), ok(at(0), at(1))))

    def havoc(st):
        seqs, ints = names(st)
        c = v.int(v.c.name("c"), 0)
        A, s = rows(v, v.c.name("D"), c)
        out = {k: s for k in seqs}
        out["n_point"] = v.int(v.c.name("left"), 0)
        if "count" in st:
            out["count"] = v.int(v.c.name("count"), 0)
        return out

    def inv(st):
        seqs, ints = names(st)
        res = []
        for k in seqs:
            res += [("every collected point was checked", all_ok(st[k])), ("collected and missing points add up", core.eq(lift(v.len(st[k]) + st["n_point"]), lift(n0)))]
        res.append(("missing points", lift(st["n_point"]) >= 0))
        return res

    DOE["base:BaseBO.create_DoE#1"] = LoopContract(havoc, inv)
    r = o.create_DoE(n0, fixed)
    v.ensure("every returned point was checked", SymBool(all_ok(r)))
    v.ensure("never more points than requested", v.len(r) <= n0)


@proof(P, [BO_ + "arg_max_acquisition"], assume=["the inner search and the filling in of fixed values follow their own contracts (C14, C15)"])
def candidates_of_the_search(v):
    m = v.mod("base")
    for n in (1, 2, 3):
        for empty in range(-1, n):
            o = optimizer(v, m.BaseBO, NAMES, n_point=n, _optimizer="MIES", _acquisition_callbacks=[])
            log = []
            fixed = {"q": v.real(v.c.name("qv"))}
            cand = [[v.real(v.c.name("x"))] if i != empty else [] for i in range(n)]
            vals = [v.real(v.c.name("y")) for _ in range(n)]
            crit = object()
            o._acquisition_callbacks = [lambda: log.append("callback")]
            v.stub(m.BaseBO, "search_space", "the space")
            v.stub(m.BaseBO, "_BaseBO__set_argmax", lambda self, f: log.append(("set", f)))

            def single(c, logger=None):
                log.append(("one", c))
                return cand[0], vals[0]

            o._argmax_restart = single
            v.stub(m.BaseBO, "_create_acquisition", lambda self, fun=None, par=None, return_dx=False, fixed=None: log.append(("acq", fixed, return_dx)) or crit)
            v.stub(m.BaseBO, "_batch_arg_max_acquisition", lambda self, n_point, return_dx, fixed: log.append(("batch", n_point, fixed)) or (cand, vals))
            res = object()

            def fill(X, f, sp):
                log.append(("fill", list(X), f, sp))
                return res

            v.stub(m, "fillin_fixed_value", fill)
            for given in (True, False):
                del log[:]
                r = o.arg_max_acquisition(n if given else None, fixed=fixed)
                f = [q for q in log if q[0] == "fill"]
                v.ensure("the search runs on the free variables", ("set", fixed) == log[0] and (n == 1 and log[1][:2] == ("acq", fixed) and log[2] == ("one", crit) or n > 1 and log[1] == ("batch", n, fixed)))
                v.ensure("found candidates get the fixed values", len(f) == 1 and f[0][2] == fixed and f[0][3] == "the space" and r is res)
                v.ensure("exactly the found candidates are handed on, in order", len(f[0][1]) == n - (empty >= 0) and all(a is c for a, c in zip(f[0][1], [c for c in cand if len(c)])))
                v.ensure("callbacks run once", log.count("callback") == 1)


# ------------------------------------------------------------------ batches: one criterion per requested point
def _batch(mod, cls, shared):
    def run(v):
        m = v.mod(mod)
        K = getattr(m, cls)
        pool = []
        v.stub(m, "Parallel", lambda n_jobs=None, **kw: pool.append(1) or list)  # joblib: the calls, in order, in other processes
        v.stub(m, "delayed", lambda f: f)
        for n, jobs in ((1, 1), (2, 1), (3, 2), (4, 1), (4, 3)):
            if cls == "SelfAdaptiveBO" and n < 2:
                continue
            t0, a0 = v.real(v.c.name("t")), v.real(v.c.name("al"))
            settings = {"t": t0, "extra": v.real(v.c.name("ex"))}
            o = optimizer(v, K, NAMES, n_point=n, n_job=jobs, _par_name="t", _acquisition_par=settings, _acquisition_fun="MGFI",
                          _acquisition_fun_list=["MGFI", "UCB"], _par_name_list=["t", "alpha"], _acquisition_par_list=[settings, {"alpha": a0}], _N_acquisition=2)
            before = dict(settings)
            drawn, made, asked = [], [], []

            def sample(p):
                drawn.append((p, v.real(v.c.name("draw"))))
                return drawn[-1][1]

            o._sampler = sample
            o._sampler_list = [sample, sample]
            fixed = {"q": v.real(v.c.name("qv"))}
            cand = [[v.real(v.c.name("x"))] for i in range(n)]
            vals = [v.real(v.c.name("y")) for _ in range(n)]

            def create(self, fun=None, par=None, return_dx=False, fixed=None):
                made.append((fun, par, dict(par), return_dx, fixed))
                return ("criterion", len(made) - 1)

            def search(c, logger=None):
                asked.append(c[1])
                return cand[c[1]], vals[c[1]]

            v.stub(K, "_create_acquisition", create)
            o._argmax_restart = search
            dx = object()
            try:
                X, F = o._batch_arg_max_acquisition(n, dx, fixed)
            except (TypeError, AttributeError, pickle.PicklingError):
                if jobs > 1 and not pool:
                    raise Unsupported("worker processes started elsewhere")
                raise
            v.ensure("as many candidates as requested", len(X) == n and len(F) == n)
            v.ensure("every candidate is the optimum of a criterion of its own", len(made) == n and len({id(x) for x in X}) == n and all(any(x is c for c in cand) for x in X))
            v.ensure("every candidate keeps its own value", all(F[i] is vals[j] for i in range(n) for j in range(n) if X[i] is cand[j]))
            v.ensure("every criterion is told the fixed variables and whether gradients are needed", all(q[4] == fixed and q[3] is dx for q in made))
            v.ensure("no criterion shares its parameters", len({id(q[1]) for q in made}) == n and all(q[1] is not settings for q in made))
            if shared != "adaptive":
                v.ensure("the settings are not changed", settings is o._acquisition_par and settings.keys() == before.keys() and all(settings[k] is before[k] for k in before))
            if shared == "one":
                v.ensure("every criterion has its own draw of the parameter and all other settings",
                         len(drawn) == n and all(q[2].keys() == before.keys() and q[2]["t"] is d[1] and q[2]["extra"] is before["extra"] for q, d in zip(made, drawn)))
            elif shared == "list":
                names = [q[0] for q in made]
                v.ensure("the criteria take turns", names == [["MGFI", "UCB"][i % 2] for i in range(n)])
                v.ensure("every criterion has its own draw of its own parameter",
                         len(drawn) == n and all((q[2]["t" if q[0] == "MGFI" else "alpha"] is d[1]) and len(q[2]) == (2 if q[0] == "MGFI" else 1) for q, d in zip(made, drawn)))
            else:
                v.ensure("every criterion has a positive parameter and all other settings",
                         v.and_(*[(q[2]["t"] >= 1e-10) & (q[2]["t"] <= 22.36) for q in made], *[q[2]["extra"] is before["extra"] for q in made]))
                new = o._acquisition_par["t"]
                v.ensure("the parameter stays positive", new >= 1e-10)
                v.ensure("and bounded", new <= 22.36)
                v.ensure("the other settings are kept", o._acquisition_par["extra"] is before["extra"])

    return run


for mod_, cls_, sh_ in (("bayes_opt", "ParallelBO", "one"), ("bayes_opt", "SelfAdaptiveBO", "adaptive"), ("extension", "MultiAcquisitionBO", "list")):
    proof(P, [f"bayes_optim.{mod_}.{cls_}._batch_arg_max_acquisition"], name=f"one_criterion_per_point_{cls_}",
          assume=["the acquisition search follows its own contract (C14)", "joblib runs the delayed calls and returns their results in order", "batches of up to four points"])(_batch(mod_, cls_, sh_))
