"""C05 incumbent: the reported optimum is a recorded solution, with its own value, and none recorded is better."""
import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C05"
BA = "bayes_optim._base.BaseOptimizer."
BO_ = "bayes_optim.base.BaseBO."
NAMES = ["p", "q"]


@proof(P, [BA + "_compare"])
def compare_is_strict_improvement(v):
    B_ = v.mod("_base").BaseOptimizer
    a, b, c = v.real("a"), v.real("b"), v.real("c")
    for mini in (True, False):
        o = optimizer(v, B_, NAMES, minimize=mini)
        r = o._compare(a, b)
        v.ensure(f"better means strictly {'smaller' if mini else 'larger'}", v.eq(r, a < b if mini else a > b))


@proof(P, [BA + "_get_best"])
def best_value(v):
    B_ = v.mod("_base").BaseOptimizer
    n = v.int("n", 1)
    F = v.array("F", n)
    for mini in (True, False):
        o = optimizer(v, B_, NAMES, minimize=mini)
        r = o._get_best(F)
        i = v.generic(n)
        v.ensure(f"no value is better ({mini})", (r <= v.at(F, i)) if mini else (r >= v.at(F, i)))


def _incumbent(mini):
    def body(v):
        m = v.mod("base")
        n = v.int("n", 1)
        s, src = solutions(v, "a", n, NAMES)
        o = optimizer(v, m.BaseBO, NAMES, minimize=mini, data=s)
        r = o.xopt
        i = v.generic(n)
        f = v.at(r.fitness, 0)
        v.ensure("no recorded solution is better", (f <= v.at(src["F"], i)) if mini else (f >= v.at(src["F"], i)))
        j = z3.Int("j")
        same = z3.And(in_range(j, n), *[lift(v.eq(v.at(r, c), wrap(src["X"]._at(j, c)))) for c in range(2)],
                      lift(v.eq(f, wrap(src["F"]._at(j)))), lift(v.eq(v.at(r.n_eval, 0), wrap(src["E"]._at(j)))))
        v.ensure("it is a recorded solution with its own value and count", SymBool(z3.Exists([j], same)))
        v.ensure("the record is unchanged", v.and_(v.eq(v.at(s, i, 0), v.at(src["X"], i, 0)), v.eq(v.at(s.fitness, i), v.at(src["F"], i))))
        v.ensure("recommendation", o.recommend() is not None)

    return body


proof(P, [BA + "xopt", BA + "recommend", BA + "_get_best"], name="incumbent_minimize")(_incumbent(True))
proof(P, [BA + "xopt", BA + "recommend", BA + "_get_best"], name="incumbent_maximize")(_incumbent(False))


@proof(P, [BO_ + "post_eval_check"])
def failed_evaluations_are_dropped(v):
    m = v.mod("base")
    n = v.int("n", 1)
    s, src = solutions(v, "a", n, NAMES)
    F = v.array("raw", n, finite=False)
    s.fitness = F
    v.stub(v.mod("solution").Solution, "__str__", lambda self: "")
    o = optimizer(v, m.BaseBO, NAMES)
    r = o.post_eval_check(s)
    i = v.generic(r.shape[0])
    e = lift(v.at(r.fitness, i))
    v.ensure("every remaining value is finite", SymBool(z3.And(core.IsFin(e), z3.Not(core.IsNan(e)))))
    k = v.generic(n)
    ek = F._at(k.e)
    j = z3.Int("j")
    v.ensure("no finite row is dropped", v.implies(SymBool(z3.And(core.IsFin(ek), z3.Not(core.IsNan(ek)))),
             SymBool(z3.Exists([j], z3.And(in_range(j, r.shape[0]), lift(v.eq(wrap(r._at(j, 0)), v.at(src["X"], k, 0))),
                                           lift(v.eq(wrap(r.fitness._at(j)), v.at(F, k))))))))


@bounded(P, [BA + "xopt", BO_ + "tell", BO_ + "post_eval_check", BA + "recommend"], n=900, n_thorough=7200, budget=60,
         bound="histories of 1-6 reports of 1-5 points on random mixed spaces, values with ties, near ties, infinities and NaN, both directions")
def incumbent_histories(b):
    import bayes_optim.search_space as S
    from bayes_optim.base import BaseBO
    from bayes_optim.bayes_opt import BO, ParallelBO
    from contracts import gen

    r = b.py
    for _ in b.loop():
        ss = gen.specs(b.rng, kinds=("Real", "Integer", "Discrete", "Bool"))
        sp = gen.space(ss, S)
        names = list(sp.var_name)
        mini = r.random() < 0.5
        et = r.choice(["list", "dict"])
        o = BO(search_space=sp, obj_fun=None, model=Surrogate(), eval_type=et, minimize=mini, max_FEs=100, DoE_size=3, acquisition_optimization=AQ)
        rec, best = [], []
        for t in range(r.randint(1, 6)):
            pts = sp.sample(r.randint(1, 5)).tolist()
            vals = [r.choice([round(r.uniform(-3, 3), 1), round(r.uniform(-3, 3), 1), r.randint(-2, 2), float("nan"), float("inf"), float("-inf"), 1e9 * r.uniform(-1, 1)]) for _ in pts]
            if r.random() < 0.4:  # values that nearly agree
                q = r.choice([f for _, f in rec] or [1.25])
                vals = [q + r.choice([0, 1e-12, -1e-12, 1e-9, -1e-9, 1e-7, -1e-7]) * max(1.0, abs(q)) if r.random() < 0.6 else f for f in vals]
            fin = [(p, f) for p, f in zip(pts, vals) if np.isfinite(f)]
            if t == 0 and not fin:
                vals[0] = 0.5
                fin = [(pts[0], 0.5)]
            if np.std([f for _, f in rec + fin]) < 1e-6 and len(rec + fin) > 5:
                continue  # flat data are rejected by design
            o.tell(pts if et == "list" else [dict(r.sample(list(zip(names, p)), len(p))) for p in pts], vals)
            rec += fin
            bf = (min if mini else max)(f for _, f in rec)
            x = o.xopt
            b.check(float(x.fitness[0]) == float(bf), "the optimum is not the best recorded value", got=x.fitness, want=bf, minimize=mini, values=[f for _, f in rec])
            b.check(any(f == bf and same_point(p, names, x.tolist()) for p, f in rec), "the optimum is not a recorded point with that value", x=x.tolist(), record=rec)
            b.check(x.n_eval.tolist() == [1], "the optimum's evaluation count", got=x.n_eval)
            b.check(o.recommend().tolist() == x.tolist(), "the recommendation differs from the optimum")
            best.append(bf)
            h = [float(np.ravel(q)[0]) for q in o.hist_f]
            b.check(h == [float(q) for q in best], "history of best values", got=h, want=best)
            b.check(np.all(np.isfinite(o.data.fitness)), "a failed evaluation was recorded", fitness=o.data.fitness)


@bounded(P, ["bayes_optim.mobo.BaseMOBO.xopt", "bayes_optim.mobo.BaseMOBO.tell"], n=500, n_thorough=4000, budget=60,
         bound="histories of 1-4 reports of 2-6 points with 2-3 objectives on a coarse grid, each objective minimized or maximized, some failed")
def efficient_set_histories(b):
    import bayes_optim.search_space as S
    from bayes_optim.mobo import MOBO
    from contracts import gen

    r = b.py
    for _ in b.loop():
        sp = gen.space(gen.specs(b.rng, kinds=("Real", "Integer")), S)
        names = list(sp.var_name)
        k = r.choice([2, 2, 3])
        mini = [r.random() < 0.5 for _ in range(k)]
        funs = [lambda x: 0.0 for _ in range(k)]
        o = MOBO(search_space=sp, obj_fun=funs, model=Surrogate(k), n_obj=k, minimize=mini, max_FEs=100, DoE_size=3, acquisition_optimization=AQ)
        rec = []
        for t in range(r.randint(1, 4)):
            pts = sp.sample(r.randint(2, 6)).tolist()
            vals = [[float(r.randint(-3, 3)) for _ in range(k)] for _ in pts]
            for i in range(1, len(vals)):
                if r.random() < 0.15:
                    vals[i][r.randrange(k)] = r.choice([float("nan"), float("inf")])
            o.tell(pts, vals)
            rec += [(p, f) for p, f in zip(pts, vals) if all(map(np.isfinite, f))]
            key = [[q if m_ else -q for q, m_ in zip(f, mini)] for _, f in rec]
            dom = lambda a, c: all(x <= y for x, y in zip(a, c)) and any(x < y for x, y in zip(a, c))
            want = [p + f for (p, f), a in zip(rec, key) if not any(dom(c, a) for c in key)]
            x = o.xopt
            got = [list(p) + list(f) for p, f in zip(np.asarray(x).tolist(), x.fitness.tolist())]
            dd = lambda L_: sorted(map(repr, L_))
            # duplicates of an efficient vector may be reported once or more
            b.check({repr(q) for q in got} <= {repr(q) for q in want}, "a dominated or unrecorded solution is reported as efficient", got=got, want=want, minimize=mini)
            b.check({repr(q[-k:]) for q in got} == {repr(q[-k:]) for q in want}, "an efficient solution is missing", got=got, want=want, minimize=mini)
            b.check(len(o.hist_f) == t + 1 and np.all(np.isfinite(o.data.fitness)), "history or failed evaluation recorded")
            b.check([list(p) + list(f) for p, f in zip(np.asarray(o.data).tolist(), o.data.fitness.tolist())] == [p + f for p, f in rec], "recorded data differ from the reports")
