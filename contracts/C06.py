"""C06 accounting: what is reported is recorded once, counters are exact, the run stops exactly when it should."""
import numpy as np

from pyvc.runtime import LoopContract
from pyvc.verify import *
from contracts.opt import *

P = "C06"
BA = "bayes_optim._base.BaseOptimizer."
BO_ = "bayes_optim.base.BaseBO."
NAMES = ["p", "q"]
TELL = {}


def _tell(first, warm):
    def body(v):
        m, sm = v.mod("base"), v.mod("solution")
        n, d0 = v.int("n", 1), v.int("d0", 1)
        o = optimizer(v, m.BaseBO, NAMES, minimize=True)
        X = v.array("X", (n, 2), "O")
        F = v.array("F", n)
        old = None
        if not first:
            s, old = solutions(v, "d", d0, NAMES)
            o.data = s
        v.stub(m.BaseBO, "update_model", lambda self: None)
        v.stub(m.BaseBO, "_to_pheno", lambda self, x: x)
        v.stub(sm.Solution, "__str__", lambda self: "")
        ev, it = o.eval_count, o.iter_count
        hold = {}

        def geno(x, index=None):
            q = sm.Solution(X, var_name=NAMES, n_obj=1)
            hold["X"] = q
            return q

        o._to_geno = geno

        def havoc(st):
            q = hold["X"]
            Fh, Eh = z3.Function(v.c.name("Fh"), INT, REAL), z3.Function(v.c.name("Eh"), INT, INT)
            q.fitness._store.elem = lambda i: Fh(i)
            q.n_eval._store.elem = lambda i: Eh(i)
            e = v.int(v.c.name("evh"))
            o.eval_count = e
            return {k: e for k in st if k.endswith("eval_count")}

        def inv(st, i, it_):
            q = hold["X"]
            return [("values reported so far are recorded at their rows", lift(v.forall(n, lambda k: v.implies(k < i, v.eq(v.at(q.fitness, k), v.at(F, k)))))),
                    ("each reported row counts one evaluation", lift(v.forall(n, lambda k: v.eq(v.at(q.n_eval, k), wrap(z3.If(lift(k < i), z3.IntVal(1), z3.IntVal(0))))))),
                    ("evaluation counter", lift(v.eq(o.eval_count, ev + (0 if warm else i))))]

        TELL["base:BaseBO.tell#1"] = LoopContract(havoc, inv)
        o.tell(X, F, warm_start=warm)
        off = 0 if first else d0
        v.ensure("number of recorded solutions", v.eq(o.data.shape[0], off + n))
        i = v.generic(n)
        for c in range(2):
            v.ensure(f"point {c}", v.eq(v.at(o.data, i + off, c), v.at(X, i, c)))
        v.ensure("value", v.eq(v.at(o.data.fitness, i + off), v.at(F, i)))
        v.ensure("count", v.eq(v.at(o.data.n_eval, i + off), 1))
        if not first:
            j = v.generic(d0)
            for c in range(2):
                v.ensure(f"earlier point {c}", v.eq(v.at(o.data, j, c), v.at(old["X"], j, c)))
            v.ensure("earlier value", v.eq(v.at(o.data.fitness, j), v.at(old["F"], j)))
            v.ensure("earlier count", v.eq(v.at(o.data.n_eval, j), v.at(old["E"], j)))
        v.ensure("evaluations", v.eq(o.eval_count, ev + (0 if warm else n)))
        v.ensure("iterations", v.eq(o.iter_count, it + (0 if warm else 1)))
        v.ensure("history", len(o.hist_f) == (0 if warm else 1))
        if not warm:
            b = v.at(o.hist_f[0], 0)
            k = v.generic(off + n)
            v.ensure("history entry is the best recorded value", b <= v.at(o.data.fitness, k))

    return body


for first in (True, False):
    for warm in (True, False):
        proof(P, [BO_ + "tell", BO_ + "post_eval_check"], name=f"tell_{'first' if first else 'later'}_{'warm' if warm else 'run'}", loops=TELL, timeout=20000,
              assume=["update_model does not change the recorded data (bounded: accounting_histories)"])(_tell(first, warm))


@proof(P, [BA + "check_stop"])
def stop_exactly_when_due(v):
    m = v.mod("_base")
    ev, mx = v.int("ev", 0), v.int("mx", 1)
    f, t = v.real("f"), v.real("t")

    class X_:
        fitness = [f]

    for mini in (True, False):
        for tgt in (False, True):
            for have in (False, True):
                o = optimizer(v, m.BaseOptimizer, NAMES, minimize=mini, eval_count=ev, max_FEs=mx, ftarget=t if tgt else None, stop_dict={})
                v.stub(m.BaseOptimizer, "xopt", X_() if have else None)
                r = o.check_stop()
                want = ev >= mx
                if tgt and have:
                    want = v.or_(want, f < t if mini else f > t)
                v.ensure(f"stop iff budget used up or target surpassed ({mini},{tgt},{have})", v.eq(r, want))


RUN = {}


@proof(P, [BA + "run"], loops=RUN, assume=["check_stop decides (proved: stop_exactly_when_due)"])
def run_until_stop(v):
    m = v.mod("_base")
    o = optimizer(v, m.BaseOptimizer, NAMES)
    flag = {}

    def check(self):
        flag["stop"] = v.bool(v.c.name("stop"))
        return flag["stop"]

    def step(self):
        v.ensure("no step after the stop condition holds", v.not_(flag["stop"]))
        flag["stop"] = None

    class X_:
        fitness = "the value"

    o._to_pheno = lambda x: x
    v.stub(m.BaseOptimizer, "check_stop", check)
    v.stub(m.BaseOptimizer, "step", step)
    v.stub(m.BaseOptimizer, "xopt", X_())
    RUN["_base:BaseOptimizer.run#1"] = LoopContract(lambda st: {}, lambda st: [("true", z3.BoolVal(True))])
    r = o.run()
    v.ensure("the run ends only when it should", flag["stop"])
    v.ensure("optimum, value and stop reason are returned", len(r) == 3 and isinstance(r[0], X_) and r[1] == "the value" and r[2] is o.stop_dict)


@proof(P, [BA + "evaluate"])
def evaluate_rowwise(v):
    m = v.mod("_base")
    n = v.int("n", 1)
    F = z3.Function("obj", INT, REAL)
    X = v.seq("X", n, "i")
    o = optimizer(v, m.BaseOptimizer, NAMES, obj_fun=lambda x: wrap(F(lift(x))), parallel_obj_fun=None, n_job=1)
    r = o.evaluate(X)
    v.ensure("one value per point", v.eq(v.len(r), n))
    i = v.generic(n)
    v.ensure("each value is the objective at its own point", v.eq(v.at(r, i), wrap(F(lift(v.at(X, i))))))
    seen = []
    o.parallel_obj_fun = lambda x: seen.append(x) or "vals"
    v.ensure("a parallel objective gets all points at once", o.evaluate(X) == "vals" and seen[0] is X and len(seen) == 1)


@proof(P, [BO_ + "step"])
def step_reports_what_it_evaluated(v):
    m = v.mod("base")
    o = optimizer(v, m.BaseBO, NAMES)
    log = []
    X, Y = object(), object()
    v.stub(m.BaseBO, "ask", lambda self, *a, **k: log.append(("ask", a, k)) or X)
    v.stub(m.BaseBO, "evaluate", lambda self, x: log.append(("evaluate", x)) or Y)
    v.stub(m.BaseBO, "tell", lambda self, x, y, *a, **k: log.append(("tell", x, y, a, k)))
    o.step()
    v.ensure("ask, evaluate, tell once each", [q[0] for q in log] == ["ask", "evaluate", "tell"])
    v.ensure("the proposed points are evaluated", log[1][1] is X)
    v.ensure("the evaluated points are reported with their values", log[2][1] is X and log[2][2] is Y and not log[2][4].get("warm_start"))


@bounded(P, [BA + "run", BA + "check_stop", BA + "evaluate", BO_ + "step", BO_ + "ask", BO_ + "tell", BO_ + "create_DoE", BO_ + "DoE_size", BO_ + "warm_data", BO_ + "post_eval_check"],
         n=400, n_thorough=6000, budget=150,
         bound="whole runs of BO/ParallelBO/AnnealingBO/NoisyBO with a stand-in surrogate on random mixed spaces with a continuous variable: budgets 1-25, initial designs 1-9, batches 1-5, targets, "
               "failed evaluations, warm data, list and dictionary points, both directions")
def accounting_histories(b):
    import csv
    import os
    import bayes_optim.search_space as S
    from bayes_optim import BO, AnnealingBO, NoisyBO, ParallelBO
    from contracts import gen

    r = b.py
    for case in b.loop():
        ss = gen.specs(b.rng, kinds=("Real", "Integer", "Discrete"), lo=0, hi=3) if r.random() < 0.7 else []
        ss.append(dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont"))
        ss = [s for s in ss if not (s["type"] == "Ordinal")]
        sp = gen.space(ss, S)
        names = list(sp.var_name)
        mini, et = r.random() < 0.5, r.choice(["list", "dict"])
        n0, budget = r.choice([1, 2, 3, 5, 9]), r.randint(1, 25)
        cls = r.choice([BO, BO, ParallelBO, ParallelBO, AnnealingBO, NoisyBO])
        k = 1 if cls is BO else r.randint(2, 5)
        if cls is AnnealingBO and budget <= n0:
            budget = n0 + r.randint(1, 9)
        target = r.choice([None, None, round(r.uniform(-2.5, 2.5), 1)])
        rounds, calls = [], []
        state = {"o": None}

        def value():
            f = r.choice([round(r.uniform(-3, 3), 1), r.uniform(-3, 3)])
            if len(calls) and r.random() < 0.12:
                f = r.choice([float("nan"), float("inf"), float("-inf")])
            return f

        def due(vals):
            fin = [f for f in vals if np.isfinite(f)] + warmv
            return len(vals) >= budget or (target is not None and fin and ((min(fin) < target) if mini else (max(fin) > target)))

        def one(x):
            if et == "dict":
                b.check(isinstance(x, dict) and sorted(x) == sorted(names), "the objective gets another form than declared", got=x)
            else:
                b.check(isinstance(x, list) and len(x) == len(names), "the objective gets another form than declared", got=x)
            f = value()
            calls.append((list(x.values()) if False else x, f))
            return f

        def begin():
            b.check(not due([f for _, f in calls]), "a round is started although the budget is used up or the target is reached",
                    evaluations=len(calls), budget=budget, target=target, minimize=mini)

        def many(X):
            begin()
            rounds.append(len(X))
            return [one(x) for x in X]

        warm, warmv = None, []
        if r.random() < 0.3 and all(s["type"] in ("Real", "Integer", "Discrete") for s in ss):
            wn = r.randint(1, 4)
            pts = sp.sample(wn).tolist()
            warmv = [r.uniform(-3, 3) for _ in range(wn)]
            warm = ([dict(zip(names, p)) for p in pts] if et == "dict" else [list(p) for p in pts], list(warmv))
        par = r.random() < 0.6
        df = os.path.join(os.getcwd(), f"hist{case}.csv") if r.random() < 0.3 and warm is None else None
        kw = dict(search_space=sp, model=Surrogate(), eval_type=et, minimize=mini, max_FEs=budget, DoE_size=n0, ftarget=target, warm_data=warm, data_file=df, acquisition_optimization=AQ)
        kw.update(dict(obj_fun=None, parallel_obj_fun=many) if par else dict(obj_fun=one))
        if cls is not BO:
            kw["n_point"] = k
        o = cls(**kw)
        info = dict(cls=cls.__name__, budget=budget, n0=n0, batch=k, target=target, minimize=mini, warm=warm, par=par, et=et)
        if not par:
            ev0 = o.evaluate

            def ev(X, ev0=ev0):
                begin()
                rounds.append(len(X))
                return ev0(X)

            o.evaluate = ev
        if warm is not None:
            b.check(o.eval_count == 0 and o.iter_count == 0 and len(o.data) == len(warmv) and o.data.fitness.tolist() == warmv, "warm data are recorded, not counted", count=o.eval_count, iters=o.iter_count, **info)
        try:
            x, f, why = o.run()
        except Exception as e:
            if type(e).__name__ == "FlatFitnessError":
                continue
            raise
        vals = [q for _, q in calls]
        b.check(due(vals) or due([]), "the run stopped although the budget is not used up and the target is not reached", values=vals, **info)
        b.check(o.eval_count == len(calls), "evaluation counter differs from the evaluations made", got=o.eval_count, want=len(calls), **info)
        b.check(o.iter_count == len(rounds) and len(o.hist_f) == len(rounds), "iteration counter or history differs from the rounds made", iters=o.iter_count, hist=len(o.hist_f), rounds=rounds, **info)
        want = ([n0] if warm is None else []) + [k] * len(rounds)
        b.check(rounds == want[: len(rounds)], "number of points per round", got=rounds, want=want[: len(rounds)], **info)
        rec = (list(zip(*warm)) if warm else []) + [(p, q) for p, q in calls if np.isfinite(q)]
        b.check(len(o.data) == len(rec), "number of recorded evaluations", got=len(o.data), want=len(rec), **info)
        D = np.asarray(o.data).tolist()
        for (p, q), row, fr, ne in zip(rec, D, o.data.fitness.tolist(), o.data.n_eval.tolist()):
            b.check(same_point(p, names, row) and q == fr and ne == 1, "an evaluation is not recorded with its own point and value", point=p, value=q, recorded=row, recorded_value=fr, count=ne, **info)
        fin = [f_ for f_ in vals if np.isfinite(f_)]
        b.check(("max_FEs" in why) == (len(vals) >= budget), "stop reason: budget", got=why, **info)
        b.check(("ftarget" in why) == bool(target is not None and (fin + warmv) and ((min(fin + warmv) < target) if mini else (max(fin + warmv) > target))), "stop reason: target", got=why, **info)
        if rec:
            best = (min if mini else max)(q for _, q in rec)
            b.check(float(np.ravel(f)[0]) == best and any(q == best and (p == x or same_point(x, names, [p[n_] for n_ in names] if isinstance(p, dict) else p)) for p, q in rec), "the run does not return the best evaluation", got=(x, f), want=best, **info)
        if df:
            rows = list(csv.reader(open(df)))
            b.check(len(rows) == len(rec) and all(abs(float(row[-1]) - q) <= 1e-9 * max(1, abs(q)) for row, (_, q) in zip(rows, rec)), "the data file differs from the recorded evaluations", rows=rows[:3], n=len(rows), want=len(rec), **info)
            os.remove(df)


@bounded(P, ["bayes_optim.fmin"], n=30, n_thorough=300, budget=100,
         bound="fmin on 1-2 dimensional random quadratics, budgets up to 9, initial designs given by size or by points")
def fmin_accounting(b):
    import contextlib
    import io
    from bayes_optim import fmin

    r = b.py
    for case in b.loop():
        d = r.choice([1, 2])
        lo = [r.uniform(-3, 0) for _ in range(d)]
        hi = [a + r.uniform(1, 4) for a in lo]
        c = [r.uniform(a, q) for a, q in zip(lo, hi)]
        calls = []

        def f(x, s=1.0):
            v_ = float(s * sum((p - q) ** 2 for p, q in zip(x, c)))
            calls.append((list(x), v_))
            return v_

        args = r.choice([(), (2.0,)])
        n0, budget, k = r.randint(2, 5), r.randint(3, 9), r.choice([1, 1, 2])
        kw = dict(n_point=k, max_FEs=budget, args=args, seed=r.randint(1, 999), acquisition_optimization=AQ)
        mode = case % 3
        X0 = None
        if mode:
            X0 = [[r.uniform(a, q) for a, q in zip(lo, hi)] for _ in range(n0)]
            kw["x0"] = np.array(X0) if r.random() < 0.5 else X0
            if mode == 2:
                kw["y0"] = [float((args or (1.0,))[0] * sum((p - q) ** 2 for p, q in zip(x, c))) for x in X0]
        else:
            kw["x0"] = n0
        with contextlib.redirect_stdout(io.StringIO()):
            x, fo, it, ev, per = fmin(f, lo, hi, **kw)
        own = calls[n0:] if mode == 1 else calls
        info = dict(mode=mode, n0=n0, budget=budget, batch=k, d=d)
        b.check(ev == len(own), "number of evaluations returned", got=ev, want=len(own), **info)
        b.check(ev >= budget and (ev - budget) < max(k, n0 if not mode else 1), "evaluations within the budget up to one batch", got=ev, **info)
        rounds = ([n0] if not mode else []) + [k] * 99
        tot, m = 0, 0
        while tot < ev:
            tot += rounds[m]
            m += 1
        b.check(it == m, "number of iterations returned", got=it, want=m, **info)
        allv = ([(q, None) for q in X0] if mode == 2 else []) + calls
        vals = ([(list(q), y) for q, y in zip(X0, kw["y0"])] if mode == 2 else []) + calls
        best = min(q for _, q in vals)
        b.check(float(np.ravel(fo)[0]) == best and any(q == best and np.allclose(p, np.asarray(x, dtype=float).ravel()) for p, q in vals), "best point and value returned", got=(x, fo), want=best, **info)
        flat = np.concatenate([np.asarray(q, dtype=float).reshape(-1, d) for q in per]) if per else np.zeros((0, d))
        b.check(flat.shape[0] == len(vals) and np.allclose(flat, np.array([p for p, _ in vals], dtype=float)), "points per iteration returned", got=flat, want=[p for p, _ in vals], **info)
        b.check([len(q) for q in per] == ([n0] + [k] * (it - (0 if mode else 1))), "points per iteration grouped by iteration", got=[len(q) for q in per], iterations=it, **info)


@bounded(P, ["bayes_optim.mobo.BaseMOBO.tell", "bayes_optim.mobo.BaseMOBO.evaluate", "bayes_optim.extension.PCABO.tell", "bayes_optim.extension.ConditionalBO.tell", BA + "run"],
         n=24, n_thorough=500, budget=120,
         bound="whole runs of MOBO (2-3 objectives), PCABO and ConditionalBO with budgets 4-14 and failed evaluations")
def other_optimizers_accounting(b):
    import bayes_optim.search_space as S
    from bayes_optim import MOBO
    from bayes_optim.extension import ConditionalBO, PCABO
    from contracts import gen

    r = b.py
    for case in b.loop():
        kind = case % 3
        calls, budget, n0 = [], r.randint(4, 14), r.randint(3, 5)
        if kind == 0:
            k = r.choice([2, 2, 3])
            sp = gen.space(gen.specs(b.rng, kinds=("Real", "Integer"), hi=3) + [dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont")], S)
            log = [[] for _ in range(k)]

            def mk(j):
                def f(x):
                    q = round(r.uniform(-3, 3), 1)
                    if log[j] and r.random() < 0.05:
                        q = float("nan")
                    log[j].append((list(x), q))
                    return q
                return f

            o = MOBO(search_space=sp, obj_fun=[mk(j) for j in range(k)], model=Surrogate(k), n_obj=k, minimize=[r.random() < 0.5 for _ in range(k)], max_FEs=budget, DoE_size=n0, acquisition_optimization=AQ)
            while not o.check_stop():
                b.check(o.eval_count < budget, "round started although the budget is used up")
                o.step()
            n = len(log[0])
            b.check(all([p for p, _ in lg] == [p for p, _ in log[0]] for lg in log), "the objectives are evaluated at different points")
            b.check(o.eval_count == k * n, "evaluation counter (one per objective and point)", got=o.eval_count, want=k * n)
            rows = [(log[0][i][0], [log[j][i][1] for j in range(k)]) for i in range(n)]
            rows = [q for q in rows if np.all(np.isfinite(q[1]))]
            got = list(zip(np.asarray(o.data).tolist(), o.data.fitness.tolist()))
            b.check(len(got) == len(rows) and all(p == x and f == y for (p, f), (x, y) in zip(rows, got)), "a value is not recorded with its own point and objective", got=got, want=rows)
            b.check(len(o.hist_f) == o.iter_count == 1 + (n - n0), "iteration counter", iters=o.iter_count, n=n, n0=n0)
            continue
        if kind == 1:
            d = r.randint(2, 3)
            sp = S.RealSpace([[-2.0 - j, 3.0 + j] for j in range(d)])
            budget = r.randint(6, 9)
            o = PCABO(search_space=sp, obj_fun=lambda x: calls.append((list(map(float, x)), r.uniform(-3, 3))) or calls[-1][1], n_components=d - 1, max_FEs=budget, DoE_size=5, n_point=1, minimize=r.random() < 0.5,
                      acquisition_optimization=AQ)
        else:
            sp = S.SearchSpace([S.Discrete(["p", "q"], name="sel"), S.Real([0.0, 1.0], name="a", conditions="sel == 'p'"), S.Real([0.0, 1.0], name="c", conditions="sel == 'q'")])
            seen = {"p": 0, "q": 0}

            def cf(x):
                q = round(r.uniform(-3, 3), 3)
                seen[x["sel"]] += 1
                if seen[x["sel"]] > 2 and r.random() < 0.15:
                    q = float("nan")
                calls.append((dict(x), q))
                return q

            o = ConditionalBO(search_space=sp, obj_fun=cf, max_FEs=budget, n_point=r.choice([2, 3]), eval_type="dict", minimize=r.random() < 0.5, acquisition_optimization=AQ)
        sizes = []
        try:
            while not o.check_stop():
                b.check(len(calls) < budget, "round started although the budget is used up", calls=len(calls), budget=budget)
                m = len(calls)
                o.step()
                sizes.append(len(calls) - m)
        except Exception as e:
            if type(e).__name__ == "FlatFitnessError":
                continue
            raise
        b.check(o.eval_count == len(calls) and o.iter_count == len(sizes) and len(calls) >= budget, "counters", evals=o.eval_count, calls=len(calls), iters=o.iter_count, rounds=len(sizes), budget=budget, cls=type(o).__name__)
        rec = [(p, q) for p, q in calls if np.isfinite(q)]
        names = list(o.data.var_name)
        D = np.asarray(o.data).tolist()
        b.check(len(D) == len(rec) and all(same_point(p, names, row) and q == f for (p, q), row, f in zip(rec, D, o.data.fitness.tolist())), "recorded data differ from the evaluations", got=D[:3], want=rec[:3], cls=type(o).__name__)
        b.check(len(o.hist_f) == o.iter_count, "history has one entry per iteration", got=len(o.hist_f), iters=o.iter_count, cls=type(o).__name__)
        b.check(all(int(q) == 1 for q in o.data.n_eval), "evaluation count of a row", got=o.data.n_eval)
        best = (min if o.minimize else max)(q for _, q in rec)
        b.check(float(np.ravel(o.xopt.fitness)[0]) == best, "optimum", got=o.xopt.fitness, want=best)


def _nonrandom(x):
    vals = [x[k] for k in sorted(x)] if isinstance(x, dict) else list(x)
    return float(sum((j + 1) * (float(u) if isinstance(u, (int, float, np.integer, np.floating)) else len(str(u))) for j, u in enumerate(vals)))


def _second(x):
    return -2.0 * _nonrandom(x) + 1


@bounded(P, [BA + "evaluate", "bayes_optim.mobo.BaseMOBO.evaluate", "bayes_optim.bayes_opt.ParallelBO._batch_arg_max_acquisition", "bayes_optim.bayes_opt.SelfAdaptiveBO._batch_arg_max_acquisition",
             "bayes_optim.extension.MultiAcquisitionBO._batch_arg_max_acquisition"], n=6, n_thorough=60, budget=120,
         bound="runs with 2 worker processes (evaluation and acquisition search) of 6 optimizer classes on mixed spaces, 3 rounds, and objectives that evaluate whole batches themselves")
def parallel_workers(b):
    import bayes_optim.search_space as S
    from bayes_optim import BO, MOBO, NoisyBO, ParallelBO
    from bayes_optim.bayes_opt import SelfAdaptiveBO
    from bayes_optim.extension import MultiAcquisitionBO
    from bayes_optim.surrogate import RandomForest
    from contracts import gen

    r = b.py
    for case in b.loop():
        cls = [ParallelBO, MOBO, SelfAdaptiveBO, MultiAcquisitionBO, NoisyBO, BO][case % 6]
        ss = gen.specs(b.rng, kinds=("Real", "Integer", "Discrete"), hi=3) + [dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont")]
        sp = gen.space(ss, S)
        names = list(sp.var_name)
        n0, k, et = r.randint(3, 5), r.randint(2, 3), r.choice(["list", "dict"])
        kw = dict(search_space=sp, obj_fun=_nonrandom, model=RandomForest(levels=sp.levels, n_estimators=4), eval_type=et, DoE_size=n0, max_FEs=100, n_job=2, acquisition_optimization=AQ)
        if cls is MOBO:
            kw.update(obj_fun=[_nonrandom, _second], n_obj=2, minimize=[True, False], model=Surrogate(2))
            k = 1
        elif cls is BO:
            k = 1
        else:
            kw["n_point"] = k
        batch = cls is not MOBO and r.random() < 0.4
        if batch:
            kw.update(obj_fun=None, parallel_obj_fun=lambda X: [_nonrandom(x) for x in X])
        o = cls(**kw)
        info = dict(cls=cls.__name__, specs=ss, batch=batch, eval_type=et)
        asked = []
        for t in range(3):
            X = o.ask()
            b.check(len(X) == (k if t else n0), "number of points", got=len(X), round=t, **info)
            f = o.evaluate(X)
            for j, x in enumerate(X):
                row = [x[n] for n in names] if isinstance(x, dict) else list(x)
                b.check(gen.bad_member(ss, np.array([row], dtype=object)) is None, "a point outside the domain", point=x, **info)
                want = [_nonrandom(x), _second(x)] if cls is MOBO else _nonrandom(x)
                got = list(f[j]) if cls is MOBO else f[j]
                b.check(got == want, "a value does not belong to its point", point=x, got=got, want=want, **info)
                asked.append((row, want))
            o.tell(X, f)
        D, F = np.asarray(o.data).tolist(), o.data.fitness.tolist()
        b.check(len(D) == len(asked) and all(d == p and np.array_equal(q, w) for d, q, (p, w) in zip(D, F, asked)), "an evaluation is not recorded with its own point and value", got=list(zip(D, F)), want=asked, **info)


# ------------------------------------------------------------------ several objectives
@proof(P, ["bayes_optim.mobo.BaseMOBO.evaluate"], assume=["joblib runs the delayed calls and returns their results in order"])
def evaluate_several_objectives(v):
    m = v.mod("mobo")
    v.stub(m, "Parallel", lambda n_jobs=None, **kw: list)
    v.stub(m, "delayed", lambda f: f)
    for k in (2, 3):
        for n in (1, 2, 3):
            for jobs in (1, 2):
                fs = [z3.Function(f"obj{j}", INT, REAL) for j in range(k)]
                X = [v.int(v.c.name("x")) for _ in range(n)]
                o = optimizer(v, m.BaseMOBO, NAMES, minimize=True, n_obj=k, obj_fun=[lambda x, f=f: wrap(f(lift(x))) for f in fs], n_job=jobs)
                r = o.evaluate(X)
                v.ensure("one row of values per point, one value per objective", len(r) == n and all(len(q) == k for q in r))
                v.ensure("each value is its own objective at its own point", v.and_(*[v.eq(r[i][j], wrap(fs[j](lift(X[i])))) for i in range(n) for j in range(k)]))


TELLM = {}


def _tell_mo(first, warm, K=2):
    def body(v):
        m, sm = v.mod("mobo"), v.mod("solution")
        n, d0 = v.int("n", 1), v.int("d0", 1)
        o = optimizer(v, m.BaseMOBO, NAMES, minimize=True, n_obj=K)
        X = v.array("X", (n, 2), "O")
        F = v.array("F", (n, K))
        old = None
        if not first:
            s, old = solutions(v, "d", d0, NAMES, k=K)
            o.data = s

        class Front:
            fitness = v.array("front", (1, K))

        class Scaler:
            scale_ = np.ones(K)  # only shown in the log

            def transform(self, y):
                return y

        class HV:
            def __init__(self, ref_point=None):
                pass

            def compute(self, pf):
                return v.real(v.c.name("hv"))

        front = Front()
        o._scaler = Scaler()
        v.stub(m.BaseMOBO, "update_model", lambda self: None)
        v.stub(m.BaseMOBO, "_to_pheno", lambda self, x: x)
        v.stub(m.BaseMOBO, "xopt", front)
        v.stub(m.BaseMOBO, "ref_point", v.array("ref", K))
        v.stub(m, "Hypervolume", HV)
        v.stub(m, "Tensor", lambda x: x)
        v.stub(sm.Solution, "__str__", lambda self: "")
        ev, it = o.eval_count, o.iter_count
        hold = {}

        def geno(x, index=None):
            q = sm.Solution(X, var_name=NAMES, n_obj=K)
            hold["X"] = q
            return q

        o._to_geno = geno

        def havoc(st):
            q = hold["X"]
            Fh, Eh = z3.Function(v.c.name("Fh"), INT, INT, REAL), z3.Function(v.c.name("Eh"), INT, INT)
            q.fitness._store.elem = lambda i, j: Fh(i, j)
            q.n_eval._store.elem = lambda i: Eh(i)
            e = v.int(v.c.name("evh"))
            o.eval_count = e
            return {k: e for k in st if k.endswith("eval_count")}

        def inv(st, i, it_):
            q = hold["X"]
            return [*[(f"values reported so far are recorded at their rows ({c})", lift(v.forall(n, lambda k: v.implies(k < i, v.eq(v.at(q.fitness, k, c), v.at(F, k, c)))))) for c in range(K)],
                    ("each reported row counts one evaluation", lift(v.forall(n, lambda k: v.eq(v.at(q.n_eval, k), wrap(z3.If(lift(k < i), z3.IntVal(1), z3.IntVal(0))))))),
                    ("evaluation counter", lift(v.eq(o.eval_count, ev + (0 if warm else K * i))))]

        TELLM["mobo:BaseMOBO.tell#1"] = LoopContract(havoc, inv)
        o.tell(X, F, warm_start=warm)
        off = 0 if first else d0
        v.ensure("number of recorded solutions", v.eq(o.data.shape[0], off + n))
        i = v.generic(n)
        for c in range(2):
            v.ensure(f"point {c}", v.eq(v.at(o.data, i + off, c), v.at(X, i, c)))
        for c in range(K):
            v.ensure(f"value {c}", v.eq(v.at(o.data.fitness, i + off, c), v.at(F, i, c)))
        v.ensure("count", v.eq(v.at(o.data.n_eval, i + off), 1))
        if not first:
            j = v.generic(d0)
            for c in range(2):
                v.ensure(f"earlier point {c}", v.eq(v.at(o.data, j, c), v.at(old["X"], j, c)))
            for c in range(K):
                v.ensure(f"earlier value {c}", v.eq(v.at(o.data.fitness, j, c), v.at(old["F"], j, c)))
            v.ensure("earlier count", v.eq(v.at(o.data.n_eval, j), v.at(old["E"], j)))
        v.ensure("evaluations", v.eq(o.eval_count, ev + (0 if warm else K * n)))
        v.ensure("iterations", v.eq(o.iter_count, it + (0 if warm else 1)))
        v.ensure("history holds the front", len(o.hist_f) == (0 if warm else 1) and (warm or o.hist_f[0] is front.fitness))

    return body


for first in (True, False):
    for warm in (True, False):
        proof(P, ["bayes_optim.mobo.BaseMOBO.tell"], name=f"tell_objectives_{'first' if first else 'later'}_{'warm' if warm else 'run'}", loops=TELLM, timeout=20000,
              assume=["update_model does not change the recorded data (bounded: other_optimizers_accounting)", "the front and its volume follow their own contracts (C05, C11, C12)", "two objectives"])(_tell_mo(first, warm))


# ---------------------------------------------------------------- the functional interface
def _fmin(n_point, design, bounds):
    """what fmin hands to the optimizer and what it returns, for any result of the run"""

    def body(v):
        m = v.mod("")
        d = 1 if bounds == "number" else 2
        lower, upper = (-1.5, 2.0) if bounds == "number" else ([-1.5, 0.0], [2.0, 3.0])
        calls = []
        a1 = object()

        def f(x, *args):
            calls.append((x, args))
            return v.real(v.c.name("fx"))

        budget, seed = v.int("budget", lo=1), v.int("seed", lo=0)
        n, k, ev, it = v.int("rows", lo=1), v.int("design", lo=1), v.int("evals", lo=1), v.int("iters", lo=1)
        R = v.array("R", (n, d))
        best = type("Best", (), {})()
        best.fitness = v.real("best")
        seen = {}

        def optimizer(kind):
            class Opt:
                def __init__(self, **kw):
                    seen.update(kw, kind=kind)
                    self.DoE_size = kw.get("DoE_size") or k
                    self.n_point, self.data, self.xopt = kw.get("n_point", 1), R, best
                    self.iter_count, self.eval_count = it, ev
                    self.runs = 0

                def run(self):
                    seen["runs"] = seen.get("runs", 0) + 1

            return Opt

        v.stub(m, "BO", optimizer("sequential"))
        v.stub(m, "ParallelBO", optimizer("batch"))
        v.stub(m, "GaussianProcess", lambda **kw: ("model", kw))
        v.stub(m, "print", lambda *a, **kw: None)
        kw, first = {}, k
        if design == "size":
            kw["x0"] = 3
            first = 3
        elif design != "none":
            kw["x0"] = [[0.5] * d, [1.0] * d]
            first = 2
            if design == "points and values":
                kw["y0"] = [1.0, 2.0]
        v.assume(n >= first)
        warm = design.startswith("points")
        rounds = it if warm else it - 1
        v.assume(v.eq(n, first + rounds * n_point))
        x, fx, iters, evals, per = m.fmin(f, lower, upper, n_point=n_point, args=(a1,), max_FEs=budget, seed=seed, **kw)
        v.ensure("one run", seen["runs"] == 1)
        v.ensure("a sequential optimizer exactly for one point per round", seen["kind"] == ("sequential" if n_point == 1 else "batch"))
        v.ensure("points per round", v.eq(seen.get("n_point", 1), n_point))
        v.ensure("budget", v.eq(seen["max_FEs"], budget))
        v.ensure("seed", v.eq(seen["random_seed"], seed))
        v.ensure("size of the design", seen.get("DoE_size") == 3 if design == "size" else not seen.get("DoE_size"))
        if warm:
            v.ensure("the points given", [list(q) for q in seen["warm_data"][0]] == kw["x0"])
            if design == "points and values":
                v.ensure("the values given, nothing evaluated", list(seen["warm_data"][1]) == [1.0, 2.0] and not calls)
            else:
                v.ensure("each point evaluated once, in order", [list(c[0]) for c in calls] == kw["x0"])
        else:
            v.ensure("no warm data, nothing evaluated", not seen.get("warm_data") and not calls)
        z = object()
        seen["obj_fun"](z)
        v.ensure("the objective is called with the extra arguments", calls[-1] == (z, (a1,)) and all(c[1] == (a1,) for c in calls))
        b = seen["search_space"].bounds
        v.ensure("the box", [tuple(q) for q in b] == ([(-1.5, 2.0)] if d == 1 else [(-1.5, 2.0), (0.0, 3.0)]))
        v.ensure("minimization", seen.get("minimize", True))
        v.ensure("best point and value of the run", v.and_(x is best, v.eq(fx, best.fitness)))
        v.ensure("iterations", v.eq(iters, it))
        v.ensure("evaluations", v.eq(evals, ev))
        from pyvc import symnp

        v.ensure("one part for the design and one per round", v.eq(per.n if isinstance(per, symnp.SymSeq) else len(per), 1 + rounds))
        p0 = per[0]
        v.ensure("the design has its points", v.eq(p0.shape[0], first))
        i = v.generic(first)
        for c in range(d):
            v.ensure(f"design point {c}", v.eq(v.at(p0, i, c), v.at(R, i, c)))
        r = v.generic(rounds)
        pr = per[r + 1]
        v.ensure("a round has its points", v.eq(pr.shape[0], n_point))
        q = v.generic(n_point)
        for c in range(d):
            v.ensure(f"point of a round {c}", v.eq(v.at(pr, q, c), v.at(R, first + r * n_point + q, c)))

    return body


for _np in (1, 3):
    for _d, _b in (("none", "list"), ("size", "number"), ("points", "list"), ("points and values", "number")):
        proof(P, ["bayes_optim.fmin"], name=f"fmin_{_np}_{_d.replace(' ', '_')}", timeout=20000,
              assume=["BO and ParallelBO follow their contracts (the run ends after whole rounds); the surrogate is external"])(_fmin(_np, _d, _b))


def _design(kind):
    def body(v):
        m = v.mod("base")
        o = m.BaseBO.__new__(m.BaseBO)
        o.dim = v.int("dim", 1)
        if kind == "default":
            for none in (None, 0):
                o.DoE_size = none
                v.ensure("five points per variable by default", v.eq(o.DoE_size, 5 * o.dim))
        elif kind == "number":
            n = v.int("n", 1)
            o.DoE_size = n
            v.ensure("the size given", v.eq(o.DoE_size, n))
        else:
            o.DoE_size = "7"
            v.ensure("a size given as an expression", v.eq(o.DoE_size, 7))
            try:
                o.DoE_size = [3]
                ok = False
            except (ValueError, TypeError):
                ok = True
            v.ensure("anything else is rejected", ok)

    return body


for _k in ("default", "number", "expression"):
    proof(P, [BO_ + "DoE_size"], name=f"design_size_{_k}")(_design(_k))
