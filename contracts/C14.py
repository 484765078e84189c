"""C14 inner optimizers: MIES, (1+1)-CMA-ES, restarts."""
import math

import numpy as np

from pyvc.runtime import LoopContract
from pyvc.verify import *
from contracts.opt import *

P = "C14"
MI = "bayes_optim.acquisition.optim.mies.MIES."
CM = "bayes_optim.acquisition.optim.one_plus_one_cma_es.OnePlusOne_CMA."
CH = "bayes_optim.acquisition.optim.one_plus_one_cma_es.OnePlusOne_Cholesky_CMA."
AR = "bayes_optim.acquisition.optim.argmax_restart"


# ------------------------------------------------------------------ run-time contracts
class Problem:
    """a deterministic function of a point, with plateaus and ties, that records every call"""

    def __init__(self, r, ss, names, et="list", shape="float", grad=False):
        self.ss, self.names, self.et, self.shape, self.grad = ss, names, et, shape, grad
        self.calls, self.vals = [], []
        self.w = [r.uniform(0.1, 2) * r.choice([-1, 1]) for _ in ss]
        self.c = [r.uniform(*s["bounds"]) if s["type"] in ("Real", "Integer") else r.random() for s in ss]
        self.q = r.choice([None, None, None, 0, 1]) if not grad else None
        self.r = r

    def row(self, x):
        if self.et == "dict":
            return [x[n] for n in self.names]
        return list(x.tolist() if hasattr(x, "tolist") else x)

    def value(self, row):
        out = 0.0
        for x, s, w, c in zip(row, self.ss, self.w, self.c):
            if s["type"] in ("Real", "Integer"):
                u = (float(x) - c) / (s["bounds"][1] - s["bounds"][0])
                out += w * u * u + 0.1 * u
            else:
                out += w * ((sum(map(ord, str(x))) * 7919 % 101) / 101.0)
        return out if self.q is None else round(out, self.q)

    def __call__(self, x):
        row = self.row(x)
        y = self.value(row)
        self.calls.append(row)
        self.vals.append(y)
        if self.grad:
            g = [w * 2 * (float(v) - c) / (s["bounds"][1] - s["bounds"][0]) ** 2 + 0.1 / (s["bounds"][1] - s["bounds"][0]) for v, s, w, c in zip(row, self.ss, self.w, self.c)]
            return np.array([y]), np.array(g).reshape(-1, 1)
        k = self.shape
        if k == "mixed":
            k = ["float", "array"][len(self.calls) % 2]
        return y if k == "float" else np.array([y]) if k == "array" else np.float64(y)


def _constraint(r, ss, pr, tight):
    """(kind, function of the point, function of the row -> list of values)"""
    num = [i for i, s in enumerate(ss) if s["type"] in ("Real", "Integer")]
    if not num or tight is None:
        return None, None
    i = r.choice(num)
    lo, hi = ss[i]["bounds"]
    cut = lo + tight * (hi - lo)
    width = hi - lo
    vec = r.random() < 0.4
    raw = lambda row: [(float(row[i]) - cut) / width * 3] + ([-1.0] if vec else [])
    fun = lambda x: np.array(raw(pr.row(x))) if vec else np.array([raw(pr.row(x))[0]])
    return fun, raw


def _penalty(t, h, g, mini):
    """independent oracle of the documented penalty with its default parameters"""
    p = sum(abs(a) for a in (h or []) if abs(a) > 0.1) + sum(max(0.0, a) ** 1.5 for a in (g or []))
    return (0.5 * t) * p * (1 if mini else -1)


def _close(a, c):
    return math.isclose(a, c, rel_tol=1e-9, abs_tol=1e-12)


@bounded(P, [MI + "__init__", MI + "optimize", MI + "evaluate", MI + "select", MI + "recombine", MI + "mutate", MI + "stop"], n=1200, n_thorough=9600, budget=90,
         bound="random spaces of 1-5 variables of all types, budgets 0-120, both directions, with and without elitism, populations 2-6 and 4-14, scalar/array objectives with ties, equality and inequality constraints, given start points and step sizes")
def mies_run(b):
    import bayes_optim.search_space as S
    from bayes_optim.acquisition.optim import MIES
    from contracts import gen

    r = b.py
    for case in b.loop():
        kinds = r.choice([("Real",), ("Integer",), ("Discrete", "Bool"), ("Real", "Integer", "Discrete", "Bool"), ("Real", "Discrete")])
        ss = gen.specs(b.rng, kinds=kinds, hi=5)
        sp = gen.space(ss, S)
        et = r.choice(["list", "list", "dict"])
        names = list(sp.var_name)
        f = Problem(r, ss, names, et, r.choice(["float", "array", "np", "mixed"]))
        mini, el = r.random() < 0.5, r.random() < 0.3
        mu, lam = r.choice([(4, 10), (4, 10), (2, 4), (6, 14), (3, 3)])
        budget = r.choice([0, 3, 4, 10, 25, 60, 120])
        gf, gr = _constraint(r, ss, f, r.choice([None, None, 0.3, 0.7, 0.05]))
        hf, hr = _constraint(r, ss, f, r.choice([None, None, None, 0.5]))
        kw = {}
        x0 = None
        if r.random() < 0.2:
            x0 = sp.sample(1).tolist()[0]
            kw["x0"] = x0
        if r.random() < 0.2:
            nr, ni = sum(s["type"] == "Real" for s in ss), sum(s["type"] == "Integer" for s in ss)
            if nr:
                kw["sigma0"] = np.array([r.uniform(0.01, 0.3) for _ in range(nr)])
            if ni:
                kw["eta0"] = np.array([r.uniform(0.1, 1) for _ in range(ni)])
        info = dict(space=str(ss), minimize=mini, elitism=el, mu=mu, lam=lam, budget=budget, eval_type=et, x0=x0, q=f.q, constrained=(hf is not None, gf is not None))
        m = MIES(sp, f, eq_func=hf, ineq_func=gf, max_eval=budget, minimize=mini, elitism=el, mu_=mu, lambda_=lam, eval_type=et, **kw)
        n0 = len(f.calls)
        b.check(n0 == (1 if x0 is not None else mu), "number of initial evaluations", got=n0, **info)
        if x0 is not None:
            b.check(f.calls[0] == x0, "the given start point is evaluated first", got=f.calls[0], **info)
        x, y, stop = m.optimize()
        n = len(f.calls)
        b.check(m.eval_count == n == stop["funcalls"], "evaluation counter", got=m.eval_count, want=n, stop=stop, **info)
        gens, rest = divmod(n - n0, lam)
        b.check(rest == 0 and m.iter_count == gens, "iteration counter", got=m.iter_count, want=gens, **info)
        b.check(n <= max(n0, budget + lam), "the evaluation budget is exceeded by more than one generation", got=n, **info)
        b.check(n > budget or any(v for k, v in stop.items() if k not in ("funcalls", "max_eval")), "stopped without a reason", stop=stop, got=n, **info)
        b.check(n <= budget or stop.get("max_eval") is True, "the stop reason does not say that the budget is used up", stop=stop, **info)
        bad = gen.bad_member(ss, f.calls)
        b.check(bad is None, "a point outside the declared domain was evaluated", bad=bad, **info)
        b.check(isinstance(x, list) and len(x) == len(ss), "type of the returned point", got=x, **info)
        pen = []
        for k in range(n):
            t = 1 if k < n0 else (k - n0) // lam + 1
            pen.append(f.vals[k] + _penalty(t, hr and hr(f.calls[k]), gr and gr(f.calls[k]), mini))
        best = min(pen) if mini else max(pen)
        y = float(np.ravel(y)[0])
        b.check(_close(y, best), "the returned value is not the best one evaluated", got=y, want=best, **info)
        b.check(any(row == x and _close(p, y) for row, p in zip(f.calls, pen)), "the returned value does not belong to the returned point", x=x, value=y, **info)
        b.check(len(m.pop) == mu and len(m.fitness) == mu, "size of the population", **info)
        b.check(gens == 0 or all((a <= c) if mini else (a >= c) for a, c in zip(m.fitness, m.fitness[1:])), "the survivors are not ordered", got=m.fitness.tolist(), **info)
        for row, fit in zip(m.pop, m.fitness):
            row = row.tolist()[: len(ss)]
            b.check(any(c == row and _close(p, float(fit)) for c, p in zip(f.calls, pen)), "a survivor does not carry its own value", row=row, fitness=float(fit), **info)
        if gens:  # the survivors are the best of the last generation (with the parents when elitist)
            worst = max(m.fitness) if mini else min(m.fitness)
            last = pen[-lam:]
            b.check(sum((p < worst - 1e-12) if mini else (p > worst + 1e-12) for p in last) <= mu - 1 or el, "a better offspring did not survive", last=last, fitness=m.fitness.tolist(), **info)


def _real_specs(b, hi=4):
    from contracts import gen

    return gen.specs(b.rng, kinds=("Real",), hi=hi)


@bounded(P, [CM + "__init__", CM + "run", CM + "step", CM + "ask", CM + "tell", CM + "evaluate", CM + "check_stop", CM + "restart", CM + "_update_covariance", CM + "_handle_exception", CH + "_update_covariance"], n=1000, n_thorough=5000, budget=90,
         bound="random real spaces of 1-3 variables with all scales and precisions, budgets 1-150, restarts, targets, start points, step sizes, both directions, equality and inequality constraints, both variants")
def cma_run(b):
    import bayes_optim.search_space as S
    from bayes_optim.acquisition.optim import OnePlusOne_Cholesky_CMA, OnePlusOne_CMA
    from contracts import gen

    r = b.py
    for case in b.loop():
        ss = _real_specs(b)
        sp = S.RealSpace([s["bounds"] for s in ss], precision=[s["precision"] for s in ss], scale=[s["scale"] for s in ss])
        cls = r.choice([OnePlusOne_CMA, OnePlusOne_Cholesky_CMA])
        f = Problem(r, ss, list(sp.var_name), "list", r.choice(["float", "array", "np"]))
        mini = r.random() < 0.5
        budget = r.choice([1, 2, 5, 20, 80, 150])
        gf, gr = _constraint(r, ss, f, r.choice([None, None, 0.3, 0.7, 0.05]))
        hf, hr = _constraint(r, ss, f, r.choice([None, None, None, 0.5]))
        kw = dict(h=hf, g=gf, max_FEs=budget, minimize=mini, n_restart=r.choice([0, 0, 1, 3]))
        if r.random() < 0.3:
            kw["x0"] = np.array([float(x) for x in sp.sample(1).tolist()[0]])
        if r.random() < 0.3:
            kw["sigma0"] = r.choice([1e-3, 1.0, 10.0]) * float(np.max(np.array([s["bounds"][1] - s["bounds"][0] for s in ss])))
        if r.random() < 0.3 and gf is None and hf is None:
            kw["ftarget"] = r.uniform(-0.2, 0.2)
        if r.random() < 0.2:
            A = b.rng.randn(len(ss), len(ss))
            kw["C0"] = A @ A.T + np.eye(len(ss))
        if r.random() < 0.2:
            kw.update(xtol=0.0, ftol=0.0)
        info = dict(space=str(ss), cls=cls.__name__, minimize=mini, q=f.q, constrained=(hf is not None, gf is not None), **{k: v for k, v in kw.items() if k not in ("h", "g", "minimize")})
        o = cls(search_space=sp, obj_fun=f, **kw)
        b.check(len(f.calls) == 1, "initial evaluations", got=len(f.calls), **info)
        if "x0" in kw:
            b.check(f.calls[0] == kw["x0"].tolist(), "the start point is not the given one", got=f.calls[0], **info)
        x, y, stop = o.run()
        n = len(f.calls)
        b.check(o.eval_count == n, "evaluation counter", got=o.eval_count, want=n, **info)
        # the target may be hit by the first point already; each restart costs one evaluation
        b.check(n <= max(budget, 2) + 1, "the evaluation budget is exceeded", got=n, **info)
        b.check(bool(stop), "stopped without a reason", **info)
        b.check(("FEs" in stop) == (n >= budget) or n < budget and "FEs" not in stop, "stop reason", stop=stop, got=n, **info)
        bad = gen.bad_member(ss, f.calls)
        b.check(bad is None, "a point outside the declared domain was evaluated", bad=bad, **info)
        feas = [not ((gr and max(gr(c)) > 0) or (hr and max(map(abs, hr(c))) > 0.1)) for c in f.calls]
        x, y = [float(a) for a in np.ravel(x)], float(np.ravel(y)[0])
        hit = [k for k in range(n) if f.calls[k] == x and f.vals[k] == y]
        b.check(bool(hit), "the returned value does not belong to the returned point", x=x, value=y, **info)
        if any(feas):
            b.check(any(feas[k] for k in hit), "an infeasible point is returned although a feasible one was evaluated", x=x, n_feasible=sum(feas), **info)
            vals = [v for v, ok in zip(f.vals, feas) if ok]
            best = min(vals) if mini else max(vals)
            b.check(y == best, "the returned value is not the best feasible one evaluated", got=y, want=best, **info)
        if "ftarget" in stop:
            b.check(y <= kw["ftarget"] if mini else y >= kw["ftarget"], "the target was not reached", got=y, stop=stop, **info)
        elif "ftarget" in kw:
            b.check(not (y <= kw["ftarget"] if mini else y >= kw["ftarget"]), "the target was reached but the run went on", got=y, stop=stop, **info)


@bounded(P, [AR], n=700, n_thorough=6000, budget=90,
         bound="random spaces of 1-4 variables, all three inner optimizers, budgets 5-60, 1-5 restarts, inequality and equality constraints including ones that no point satisfies, with and without logger")
def best_of_the_restarts(b):
    import bayes_optim.search_space as S
    import bayes_optim.acquisition.optim as mod
    from bayes_optim.acquisition.optim import argmax_restart
    from contracts import gen

    r = b.py
    for case in b.loop():
        opt = r.choice(["MIES", "MIES", "OnePlusOne_Cholesky_CMA", "BFGS", "BFGS"])
        ss = _real_specs(b, 5) if opt != "MIES" else gen.specs(b.rng, kinds=("Real", "Integer", "Discrete", "Bool"), hi=5)
        real = all(s["type"] == "Real" for s in ss)
        if real:
            sp = S.RealSpace([s["bounds"] for s in ss], precision=[s["precision"] for s in ss], scale=[s["scale"] for s in ss])
        else:
            sp = gen.space(ss, S)
            opt = r.choice(["MIES", "BFGS"])
        bfgs = opt == "BFGS" and real
        f = Problem(r, ss, list(sp.var_name), "list", "float" if not bfgs else "grad", grad=bfgs)
        gf, gr = _constraint(r, ss, f, r.choice([None, None, 0.3, 0.7, -1.0]))
        hf, hr = _constraint(r, ss, f, r.choice([None, None, None, 0.5]))
        budget, n_restart, wait = r.choice([5, 12, 30, 60]), r.randint(1, 5), r.randint(1, 3)
        info = dict(space=str(ss), optimizer=opt, budget=budget, n_restart=n_restart, wait=wait, q=f.q, constrained=(hf is not None, gf is not None))
        runs = []
        real_bfgs = getattr(mod, "fmin_l_bfgs_b", None)
        if bfgs and real_bfgs is not None:
            mod.fmin_l_bfgs_b = lambda *a, **k: (runs.append(real_bfgs(*a, **k)), runs[-1])[1]
        try:
            x, y = argmax_restart(f, sp, h=hf, g=gf, eval_budget=budget, n_restart=n_restart, wait_iter=wait, optimizer=opt, logger=r.choice([None, Log()]))
        finally:
            if real_bfgs is not None:
                mod.fmin_l_bfgs_b = real_bfgs
        feasible = lambda c: not ((gr and max(gr(c)) > 0) or (hr and max(map(abs, hr(c))) > 0.1 + 1e-9))
        if len(x) == 0:
            b.check(hf is not None or gf is not None, "no point is returned although nothing is constrained", **info)
            if opt == "OnePlusOne_Cholesky_CMA":
                b.check(not any(map(feasible, f.calls)), "no point is returned although a feasible one was evaluated", **info)
            continue
        x, y = list(x), float(np.ravel(y)[0])
        b.check(gen.bad_member(ss, [x]) is None, "the returned point is outside the declared domain", got=x, **info)
        b.check(feasible(x), "the returned point violates a constraint", got=x, **info)
        b.check(_close(y, f.value(x)), "the returned value does not belong to the returned point", x=x, got=y, want=f.value(x), **info)
        if opt == "OnePlusOne_Cholesky_CMA" or not bfgs and hf is None and gf is None:
            best = max(v for v, c in zip(f.vals, f.calls) if feasible(c))
            b.check(_close(y, best), "the returned value is not the best one evaluated", got=y, want=best, **info)
        if bfgs and hf is None and gf is None and all(s["precision"] is None for s in ss):
            ends = [f.value([float(a) for a in np.ravel(run[0])]) for run in runs]
            b.check(not ends or y >= max(ends) - 1e-9 * max(1, abs(y)), "the returned value is not the best one of the restarts", got=y, want=ends, **info)
        if hf is None and gf is None:
            b.check(len(f.calls) <= max(budget, 4) + (10 if opt != "OnePlusOne_Cholesky_CMA" and not bfgs else 2 if not bfgs else 25), "the evaluation budget is exceeded by more than one generation", got=len(f.calls), **info)


# ------------------------------------------------------------------ proofs
def _need(st, *names):
    for n in names:
        if n not in st:
            raise Unsupported(f"loop state has no variable {n!r}")
    return [st[n] for n in names]


RST = {}


def _restart(optimizer, use_h, use_g):
    def body(v):
        m = v.mod("acquisition.optim")
        q = 2
        H = z3.Function("h", REAL, INT, REAL)
        G = z3.Function("g", REAL, INT, REAL)
        VALUE = z3.Function("value", REAL, REAL)  # the acquisition function
        key = lambda x: x if isinstance(x, SymNum) else v.at(x, 0)
        h = (lambda x: SymArray._make((q,), (lambda e: lambda j: H(e, j))(lift(key(x))), "f")) if use_h else None
        g = (lambda x: SymArray._make((q,), (lambda e: lambda j: G(e, j))(lift(key(x))), "f")) if use_g else None
        budget, n_restart, wait = v.int("budget", 1), v.int("n_restart", 1), v.int("wait", 1)
        ghost = dict(used=z3.IntVal(0), best=z3.Real("best0"), any=z3.BoolVal(False), where=z3.IntVal(0), n=z3.IntVal(0))

        def feasible(x):
            fs = [z3.BoolVal(True)]
            for j in range(q):
                if use_h:
                    fs.append(lift(abs(wrap(H(x, j))) <= 0.1))
                if use_g:
                    fs.append(G(x, j) <= 0)
            return z3.And(*fs)

        def result(given, hh, gg, mini):
            """the contract of an inner optimizer: a point with its value, and how many evaluations it took"""
            v.ensure("the constraints are passed on", (hh is None) == (h is None) and (gg is None) == (g is None))
            if not (use_h or use_g):
                v.ensure("an inner run gets what is left of the budget", v.and_(given == budget - SymNum(ghost["used"]), given >= 1))
            v.ensure("the acquisition function is maximized", mini is False)
            x, k = v.real(v.c.name("x")), v.int(v.c.name("calls"), 1)
            f = wrap(VALUE(x.e))
            v.assume(SymBool(z3.And(core.IsFin(f.e), z3.Not(core.IsNan(f.e)))))
            ok = feasible(x.e)
            ghost["used"] = ghost["used"] + k.e
            new = z3.And(ok, z3.Or(z3.Not(ghost["any"]), f.e > ghost["best"]))
            ghost["best"], ghost["where"] = z3.If(new, f.e, ghost["best"]), z3.If(new, ghost["n"], ghost["where"])
            ghost["any"] = z3.Or(ghost["any"], ok)
            return x, f, k

        obj = object()

        class MIES_:
            def __init__(self, space, fun, eq_func=None, ineq_func=None, max_eval=None, minimize=True, **kw):
                v.ensure("the inner run searches the given space for the given function", space is sp and fun is obj)
                self.r = result(max_eval, eq_func, ineq_func, minimize)

            def optimize(self):
                x, f, k = self.r
                return x, f, {"funcalls": k}

        class CMA_:
            def __init__(self, search_space, obj_fun, h=None, g=None, max_FEs=None, minimize=True, **kw):
                v.ensure("the inner run searches the given space for the given function", search_space is sp and obj_fun is obj)
                self.r = result(max_FEs, h, g, minimize)
                self.eval_count = self.r[2]

            def run(self):
                x, f, k = self.r
                stop = {"FEs": k} if v.bool(v.c.name("used_up")) else {"ftol": v.real(v.c.name("tol"))}
                return x, SymArray._make((1,), lambda i: f.e, "f") if v.bool(v.c.name("array")) else f, stop

        sp_cls = type("RealSpace", (), {})
        sp = (sp_cls if optimizer == "OnePlusOne_Cholesky_CMA" else type("Space", (), {}))()
        start = v.array("start", (1, v.int("d", 1)), "O")
        sp.sample = lambda N=1, method=None: start
        v.stub(m, "RealSpace", sp_cls)
        v.stub(m, "MIES", MIES_)
        v.stub(m, "OnePlusOne_Cholesky_CMA", CMA_)

        def lists(st):
            return _need({**v.c.loop_env, **st}, "xopt", "fopt")

        def havoc(st):
            _need(st, "best", "wait_count", "eval_budget")
            c = v.int(v.c.name("c"), 0)
            X, F = z3.Function(v.c.name("Xs"), INT, REAL), z3.Function(v.c.name("Fs"), INT, REAL)
            u, bb, a = z3.Int(v.c.name("used")), z3.Real(v.c.name("gbest")), z3.Bool(v.c.name("gany"))
            w = z3.Int(v.c.name("where"))
            v.c.__dict__.setdefault("_generics", []).append(w)
            ghost.update(used=u, best=bb, any=a, where=w, n=lift(c))
            i = z3.Int(v.c.name("i"))
            v.c.assume(z3.ForAll([i], z3.And(core.IsFin(F(i)), z3.Not(core.IsNan(F(i)))), patterns=[F(i)]))
            v.c.assume(z3.And(core.IsFin(bb), z3.Not(core.IsNan(bb))))
            return dict(xopt=SymSeq(c, lambda k: wrap(X(k))), fopt=SymSeq(c, lambda k: wrap(F(k))), best=v.xreal(v.c.name("best")), wait_count=v.int(v.c.name("waits"), 0),
                        eval_budget=v.int(v.c.name("left")))

        def inv(st, i=None, it=None):
            X, F = lists(st)
            k = z3.Int(v.c.name("k"))
            c = I(v.len(X))
            zero = _zero(v.len(X))
            out = [("points and values belong together", core.eq(lift(v.len(X)), lift(v.len(F))))]
            if not zero:
                x, f = lift(v.at(X, SymNum(k))), lift(v.at(F, SymNum(k)))
                out += [("every kept point is feasible", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c), feasible(x)))),
                        ("every kept point has its own value", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c), f == VALUE(x)))),
                        ("no kept value is better than the best", z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < c), f <= ghost["best"]))),
                        ("the best feasible result is kept", z3.Implies(ghost["any"], z3.And(ghost["where"] >= 0, ghost["where"] < c, lift(v.at(F, SymNum(ghost["where"]))) == ghost["best"]))),
                        ("nothing is kept only if nothing feasible was found", ghost["any"] == (c > 0))]
            else:
                out += [("nothing is kept only if nothing feasible was found", z3.Not(ghost["any"]))]
            if not (use_h or use_g):
                out.append(("what is left of the budget", lift(st["eval_budget"]) == lift(budget) - ghost["used"]))
                if i is not None:
                    out.append(("the budget is not used up before another run", lift(st["eval_budget"]) >= 1))
            return out

        RST["acquisition.optim:argmax_restart#1"] = LoopContract(havoc, inv)
        x, f = m.argmax_restart(obj, sp, h=h, g=g, eval_budget=budget, n_restart=n_restart, wait_iter=wait, optimizer=optimizer, logger=Log() if use_h else None)
        if isinstance(x, (list, SymSeq)):
            v.ensure("nothing is returned only if no run found a feasible point", z3.Not(ghost["any"]))
            return
        v.ensure("the returned point is feasible", feasible(lift(x)))
        v.ensure("the returned value is the value of the returned point", v.eq(f, wrap(VALUE(lift(x)))))
        v.ensure("the returned value is the best of all runs that ended feasible", v.eq(f, wrap(ghost["best"])))

    return body


def _zero(n):
    e = z3.simplify(lift(n)) if not isinstance(n, int) else z3.IntVal(n)
    return z3.is_int_value(e) and e.as_long() == 0


for _opt in ("MIES", "OnePlusOne_Cholesky_CMA"):
    for _h, _g in ((False, False), (True, False), (False, True), (True, True)):
        proof(P, [AR], name=f"best_restart_{_opt}_{'h' if _h else ''}{'g' if _g else ''}", loops=RST, decide_ms=100, assume=["the inner optimizers return a point with its value (proved and checked below); math reals; constraint functions with two components"])(_restart(_opt, _h, _g))


# ---- MIES
def _mies(v, m, minimize, **kw):
    o = m.MIES.__new__(m.MIES)
    o.__dict__.update(minimize=minimize, mu_=v.int("mu", 1), lambda_=v.int("lam", 1), eval_count=v.int("evals", 0), iter_count=v.int("iters", 0), stop_dict={}, verbose=False, elitism=False,
                      eq_func=None, ineq_func=None, max_eval=v.int("max_eval", 0), dim=2, _id_var=np.arange(2), _len=3)
    o.__dict__.update(kw)
    return o


def _select(minimize, elitism):
    def body(v):
        m = v.mod("acquisition.optim.mies")
        o = _mies(v, m, minimize, elitism=elitism)
        v.assume(o.lambda_ >= o.mu_)
        names = ["p", "q", "s"]
        o.offspring, D = solutions(v, "off", o.lambda_, names)
        o.f_offspring = v.array("foff", (o.lambda_,))
        o.pop, E = solutions(v, "par", o.mu_, names)
        o.fitness = v.array("fpar", (o.mu_,))
        f0, f1 = o.f_offspring, o.fitness
        best = (lambda a, c: a <= c) if minimize else (lambda a, c: a >= c)
        o.select()
        v.ensure("as many survivors as parents", v.and_(v.eq(v.len(o.pop), o.mu_), v.eq(v.len(o.fitness), o.mu_)))
        k = v.generic(o.mu_, "k")
        j = z3.Int("src")
        row = lambda X, f, n: z3.Exists([j], z3.And(in_range(j, n), lift(v.at(o.fitness, k)) == lift(v.at(f, SymNum(j))), *[core.eq(lift(v.at(o.pop, k, c)), lift(v.at(X, SymNum(j), c))) for c in range(3)]))
        src = row(D["X"], f0, o.lambda_)
        if elitism:
            src = z3.Or(src, row(E["X"], f1, o.mu_))
        v.ensure("every survivor is an individual of this generation with its own value", SymBool(src))
        l = v.generic(o.mu_, "l")
        v.ensure("survivors are ordered", v.implies(k <= l, best(v.at(o.fitness, k), v.at(o.fitness, l))))
        i = v.generic(o.lambda_, "i")
        if elitism:
            v.c._generics.append(lift(o.mu_ + i))
        v.ensure("the first survivor is at least as good as every offspring", best(v.at(o.fitness, 0), v.at(f0, i)))
        if elitism:
            v.ensure("the first survivor is at least as good as every parent", best(v.at(o.fitness, 0), v.at(f1, k)))

    return body


for _m in (True, False):
    for _e in (True, False):
        proof(P, [MI + "select"], name=f"mies_select_{'min' if _m else 'max'}{'_elitist' if _e else ''}", timeout=25000, assume=["objective values are finite numbers"])(_select(_m, _e))


@proof(P, [MI + "evaluate"], assume=["the penalty is computed row by row (C09)"])
def mies_evaluate(v):
    m = v.mod("acquisition.optim.mies")
    o = _mies(v, m, True)
    n = v.int("n", 1)
    VAL = core.Val
    F = z3.Function("obj", VAL, VAL, REAL)
    PEN = z3.Function("pen", VAL, VAL, INT, REAL)
    at = lambda row, c: core.to_val(lift(v.at(row, c)))
    o.obj_func = lambda x: wrap(F(at(x, 0), at(x, 1)))
    o._to_pheno = lambda x: x
    o.minimize = "direction"
    o.eq_func, o.ineq_func = "h", "g"

    def pen(X, t, h, g, minimize=None):
        v.ensure("the penalty gets the caller's constraints, direction and the iteration", v.and_(h == "h" and g == "g" and minimize == "direction", v.eq(t, o.iter_count + 1)))
        return SymArray._make((n,), lambda i: PEN(core.to_val(lift(v.at(X, SymNum(i), 0))), core.to_val(lift(v.at(X, SymNum(i), 1))), lift(t)), "f")

    o._penalty_func = pen
    pop, D = solutions(v, "P", n, ["p", "q", "s"])
    e0 = o.eval_count
    r = o.evaluate(pop)
    i = v.generic(n)
    a, b_ = (core.to_val(lift(v.at(D["X"], i, c))) for c in range(2))
    v.ensure("every individual gets its own objective value", v.eq(v.at(pop.fitness, i), wrap(F(a, b_))))
    v.ensure("every individual gets its own penalty", v.eq(v.at(r, i), wrap(F(a, b_) + PEN(a, b_, lift(o.iter_count + 1)))))
    v.ensure("one value per individual", v.eq(v.len(r), n))
    v.ensure("every evaluation is counted", v.eq(o.eval_count, e0 + n))
    for c in range(3):
        v.ensure(f"the individuals are unchanged ({c})", v.eq(v.at(pop, i, c), v.at(D["X"], i, c)))


OPT = {}


def _optimize(minimize, elitism):
    def body(v):
        m = v.mod("acquisition.optim.mies")
        o = _mies(v, m, minimize, elitism=elitism)
        mu, lam = o.mu_, o.lambda_
        v.assume(lam >= mu)
        VAL = core.Val
        EV = z3.Function("evaluated", VAL, VAL, REAL, BOOL)  # ghost: a point was evaluated with this (penalized) value
        names = ["p", "q", "s"]
        best = (lambda a, c: a <= c) if minimize else (lambda a, c: a >= c)
        ghost = dict(best=v.real("best0"), count=z3.IntVal(0), iters=z3.IntVal(0))
        calls = []

        def pop(nm, n):
            return solutions(v, v.c.name(nm), n, names)[0]

        def paired(X, f, n):
            i = z3.Int(v.c.name("i"))
            g = lambda c: core.to_val(lift(v.at(X, SymNum(i), c)))
            return z3.ForAll([i], z3.Implies(in_range(i, n), EV(g(0), g(1), core.to_real(lift(v.at(f, SymNum(i)))))))

        o.pop, o.fitness = pop("pop", mu), v.array("fit", (mu,))
        o.offspring, o.f_offspring = pop("off", lam), v.array("foff", (lam,))
        v.c.assume(paired(o.pop, o.fitness, mu))
        x0 = [v.real("xa"), v.real("xb")]

        class Pt(list):
            def tolist(self):
                return list(self)

        o.xopt, o.fopt = v.array("xopt", (2,), "O"), ghost["best"]
        v.c.assume(EV(core.to_val(lift(v.at(o.xopt, 0))), core.to_val(lift(v.at(o.xopt, 1))), o.fopt.e))

        v.stub(m.MIES, "recombine", lambda self, a, c: v.array(v.c.name("child"), (3,), "O"))
        v.stub(m.MIES, "mutate", lambda self, ind: ind)

        def stop(self):
            return v.bool(v.c.name("stop"))

        def evaluate(self, X, return_penalized=True):
            v.ensure("the offspring are evaluated", X is self.offspring)
            f = v.array(v.c.name("f"), (lam,))
            v.c.assume(paired(X, f, lam))
            new = v.real(v.c.name("best"))
            v.assume(best(new, ghost["best"]))
            v.assume(v.forall(lam, lambda i: best(new, v.at(f, i))))
            j = z3.Int(v.c.name("j"))
            v.c.assume(z3.Or(new.e == ghost["best"].e, z3.Exists([j], z3.And(in_range(j, lam), new.e == lift(v.at(f, SymNum(j)))))))
            ghost["best"] = new
            self.eval_count = self.eval_count + lam
            ghost["count"] = ghost["count"] + 1
            return f

        def select(self):
            v.ensure("the offspring carry their own values when the survivors are selected", SymBool(paired(self.offspring, self.f_offspring, lam)))
            P_, f = pop("sel", mu), v.array(v.c.name("fsel"), (mu,))
            v.c.assume(paired(P_, f, mu))
            v.assume(v.forall(lam, lambda i: best(v.at(f, 0), v.at(self.f_offspring, i))))
            j = z3.Int(v.c.name("j"))
            v.c.assume(z3.Exists([j], z3.And(in_range(j, lam), lift(v.at(f, 0)) == lift(v.at(self.f_offspring, SymNum(j))))))
            self.pop, self.fitness = P_, f

        for k, fn in (("stop", stop), ("evaluate", evaluate), ("select", select)):
            v.stub(m.MIES, k, fn)

        def havoc_in(st):
            F = z3.Function(v.c.name("O"), INT, INT, Val)
            o.offspring._store.elem = lambda i, j: F(i, j)
            return {}

        e0, i0 = o.eval_count, o.iter_count

        def havoc(st):
            o.pop, o.fitness = pop("hpop", mu), v.array(v.c.name("hfit"), (mu,))
            o.offspring, o.f_offspring = pop("hoff", lam), v.array(v.c.name("hfoff"), (lam,))
            o.xopt, o.fopt = v.array(v.c.name("hx"), (2,), "O"), v.real(v.c.name("hf"))
            ghost["best"] = v.real(v.c.name("hbest"))
            ghost["count"] = z3.Int(v.c.name("gens"))
            o.iter_count, o.eval_count = v.int(v.c.name("it")), v.int(v.c.name("ev"))
            return {k: getattr(o, k.split(".")[-1]) for k in st if k.startswith("self.")}

        def inv(st):
            g = lambda c: core.to_val(lift(v.at(o.xopt, c)))
            return [("the reported value belongs to the reported point", EV(g(0), g(1), core.to_real(lift(o.fopt)))),
                    ("the reported value is the best so far", lift(o.fopt) == ghost["best"].e),
                    ("parents carry their own values", paired(o.pop, o.fitness, mu)),
                    ("one iteration per generation", lift(o.iter_count) == lift(i0) + ghost["count"]),
                    ("evaluations", lift(o.eval_count) == lift(e0) + ghost["count"] * lift(lam))]

        OPT.clear()
        OPT["acquisition.optim.mies:MIES.optimize#1"] = LoopContract(havoc, inv)
        OPT["acquisition.optim.mies:MIES.optimize#2"] = LoopContract(havoc_in, lambda st, i, it: [])
        x, f, stop_dict = o.optimize()
        v.ensure("the returned value is the best of all evaluated ones", v.eq(f, ghost["best"]))
        v.ensure("the returned value belongs to the returned point", SymBool(EV(*[core.to_val(lift(v.at(x, c))) for c in range(2)], core.to_real(lift(f)))))
        v.ensure("the number of evaluations is reported", v.eq(stop_dict["funcalls"], o.eval_count))

    return body


for _m in (True, False):
    proof(P, [MI + "optimize"], name=f"mies_optimize_{'min' if _m else 'max'}", loops=OPT, assume=["selection and evaluation follow their contracts (mies_select, mies_evaluate); objective values are finite numbers"])(_optimize(_m, False))


# ---- mutation keeps every variable in its domain
@proof(P, [MI + "_mutate_r"], assume=["the box handling returns a point of the box (C10), rounding keeps it there (C01)"])
def mutation_real(v):
    m = v.mod("acquisition.optim.mies")
    o = _mies(v, m, True, N_r=2, id_r=[0, 2], tau_r=v.real("tau", gt=0), tau_p_r=v.real("taup", gt=0), _id_sigma=np.array([3, 4]))
    lo, hi = [v.real(f"lo{i}") for i in range(2)], [v.real(f"hi{i}") for i in range(2)]
    for a, c in zip(lo, hi):
        v.assume(a < c)
    o.bounds_r = symnp.to_symarray([[lo[0], hi[0]], [lo[1], hi[1]]])
    x = v.array("x", (5,), "O")
    old = [v.at(x, i) for i in range(5)]
    ok = [z3.Function(f"dom{i}", REAL, BOOL) for i in range(2)]
    log = []

    def box(z, lb, ub):
        for i in range(2):
            v.ensure(f"the box handling gets the bounds of variable {i}", v.and_(v.eq(v.at(lb, i), lo[i]), v.eq(v.at(ub, i), hi[i])))
        r = v.array("boxed", (2,))
        for i in range(2):
            v.assume(v.and_(v.at(r, i) >= lo[i], v.at(r, i) <= hi[i]))
        log.append(r)
        return r

    class Sub:
        def round(self, z):
            v.ensure("rounded after the box handling", z is log[-1])
            r = v.array("rounded", (1, 2))
            for i in range(2):
                v.c.assume(ok[i](lift(v.at(r, 0, i))))
            return r

    class Sp:
        real_id = [0, 2]

        def __getitem__(self, ids):
            v.ensure("the real variables are rounded", list(ids) == [0, 2])
            return Sub()

    o._space = Sp()
    v.stub(m, "handle_box_constraint", box)
    R = v.array("R", (2,))
    v.assume(v.and_(v.not_(v.eq(v.at(R, 0), 0)), v.not_(v.eq(v.at(R, 1), 0))))
    v.stub(m, "randn", lambda *a: R if a else v.real(v.c.name("z")))
    o._mutate_r(x)
    for k, i in enumerate((0, 2)):
        v.ensure(f"real variable {i} is in its domain", SymBool(ok[k](core.to_real(core.val_num(lift(v.at(x, i)))) if hasattr(core, "val_num") else core._num(lift(v.at(x, i))))))
    v.ensure("the other variable is not touched", v.eq(v.at(x, 1), old[1]))


def _mutation_integer(v, st):
    m = v.mod("acquisition.optim.mies")
    o = _mies(v, m, True, N_i=2, id_i=[1, 2], tau_i=v.real("tau", gt=0), tau_p_i=v.real("taup", gt=0), _id_eta=np.array([3, 4]))
    lo, hi = ([v.int(f"{n}{i}") for i in range(2)] for n in ("lo", "hi"))
    for a, c in zip(lo, hi):
        v.assume(a < c)
    o.bounds_i = symnp.to_symarray([[lo[0], hi[0]], [lo[1], hi[1]]])
    o.step_i = symnp.to_symarray([st[0], st[1]])
    x = v.array("x", (5,), "O")
    x[1], x[2] = v.int("x1"), v.int("x2")
    x[3], x[4] = v.real("e1", gt=0), v.real("e2", gt=0)
    old = [v.at(x, i) for i in range(5)]

    def box(z, lb, ub):
        for i in range(2):
            v.ensure(f"the box handling gets the bounds of variable {i}", v.and_(v.eq(v.at(lb, i), lo[i]), v.eq(v.at(ub, i), hi[i])))
        r = v.array("boxed", (2,))
        for i in range(2):
            v.assume(v.and_(v.at(r, i) >= lo[i], v.at(r, i) <= hi[i]))
        return r

    v.stub(m, "handle_box_constraint", box)
    v.stub(m, "randn", lambda *a: v.array(v.c.name("z"), (2,)) if a else v.real(v.c.name("z")))
    v.stub(m, "geometric", lambda p: v.array(v.c.name("geo"), (2,), "i"))
    o._mutate_i(x)
    for k, i in enumerate((1, 2)):
        y = v.at(x, i)
        v.ensure(f"integer variable {i} is inside its bounds", v.and_(y >= lo[k], y <= hi[k]))
        v.ensure(f"integer variable {i} is on the grid of its step", v.eq((y - lo[k]) % st[k], 0))
    v.ensure("the other variable is not touched", v.eq(v.at(x, 0), old[0]))


for _st in ((1, 1), (2, 3), (5, 1)):
    proof(P, [MI + "_mutate_i"], name=f"mutation_integer_{_st[0]}_{_st[1]}", assume=["the box handling returns a point of the box (C10); integer steps 1, 2, 3 and 5"])(lambda v, st=_st: _mutation_integer(v, st))


@proof(P, [MI + "_mutate_d"], assume=["the box handling follows its contract (C10)"])
def mutation_categorical(v):
    m = v.mod("acquisition.optim.mies")
    o = _mies(v, m, True, N_d=1, id_d=[0], tau_d=v.real("tau", gt=0), _id_p=np.array([3]), bounds_d=[["x", "y", "z"]])
    x = v.array("x", (4,), "O")
    x[3] = v.real("P", gt=0, lt=1)
    x[0] = "y"
    x[2] = True
    old = v.at(x, 1)
    v.stub(m, "handle_box_constraint", lambda z, lb, ub: z)
    v.stub(m, "randn", lambda *a: v.real(v.c.name("z")))
    U_ = [v.real("u0")]
    v.stub(m, "rand", lambda n: symnp.to_symarray(U_))

    def randint(a, n):
        r = v.int(v.c.name("level"), a)
        v.assume(r < n)
        return r

    v.stub(m, "randint", randint)
    o._mutate_d(x)
    v.ensure("variable 0 is one of its levels", v.or_(*[v.eq(v.at(x, 0), l) for l in "xyz"]))
    v.ensure("the other variables are not touched", v.and_(v.eq(v.at(x, 1), old), v.eq(v.at(x, 2), True)))


# ---- (1+1)-CMA-ES
def _cma(v, m, minimize, d, **kw):
    o = m.OnePlusOne_CMA.__new__(m.OnePlusOne_CMA)
    o.__dict__.update(minimize=minimize, dim=d, _stop=False, h=None, g=None, eval_count=v.int("evals", 1), iter_count=v.int("iters", 0), _w=v.real("w", gt=0, lt=1), _delta_x=v.real("dx", lo=0), _delta_f=v.real("df", lo=0),
                      xtol=v.real("xtol", lo=0), ftol=v.real("ftol", lo=0), _sigma=v.real("sigma", gt=0), verbose=False, logger=Log(), stop_dict={}, ftarget=None, max_FEs=v.int("max_FEs", 1), n_restart=0, _restart=False,
                      _better=(lambda a, c: a <= c) if minimize else (lambda a, c: a >= c), args={})
    o.__dict__.update(kw)
    return o


def _tell(minimize, feasible_before, form):
    def body(v):
        """ghost state: the best feasible value so far; one step of tell keeps the record exact"""
        m = v.mod("acquisition.optim.one_plus_one_cma_es")
        d = v.int("d", 1)
        EV = z3.Function("evaluated", z3.ArraySort(INT, REAL), REAL, BOOL)
        o = _cma(v, m, minimize, d, _x=v.array("parent", (d,)))
        best = o._better
        o.xopt, o.fopt, o.fopt_penalized = v.array("xopt", (d,)), v.real("fopt"), v.real("fpen")
        o._xopt_feasible = feasible_before
        x0 = o.xopt.copy()
        f0 = o.fopt
        for nm in ("_update_step_size", "_update_covariance", "_handle_exception"):
            v.stub(m.OnePlusOne_CMA, nm, lambda self, *a: None)
        x, y, pen = v.array("x", (d,)), v.real("y"), v.real("pen")
        v.assume(pen >= 0 if minimize else pen <= 0)
        p0, it = o._x.copy(), o.iter_count
        xs = x.copy()
        if form == "array":
            o.tell(x, SymArray._make((1,), lambda i: y.e, "f"), SymArray._make((1,), lambda i: pen.e, "f"))
        else:
            o.tell(x, y, pen)
        i = v.generic(d)
        ok = v.eq(pen, 0)
        new = v.and_(ok, best(y, f0)) if feasible_before else ok
        v.ensure("a feasible point replaces a worse or infeasible one", v.implies(new, v.and_(v.eq(o.fopt, y), v.eq(v.at(o.xopt, i), v.at(xs, i)))))
        v.ensure("otherwise the recorded optimum is kept", v.implies(v.not_(new), v.and_(v.eq(o.fopt, f0), v.eq(v.at(o.xopt, i), v.at(x0, i)))))
        v.ensure("no feasible point is better than the recorded one", v.implies(v.and_(ok, SymBool(z3.BoolVal(True))), best(o.fopt, y)))
        if feasible_before:
            v.ensure("the recorded value never gets worse", best(o.fopt, f0))
        moved = v.at(o._x, i)
        v.ensure("the parent stays or becomes the trial point", v.or_(v.eq(moved, v.at(p0, i)), v.eq(moved, v.at(xs, i))))
        v.ensure("iterations are counted", v.eq(o.iter_count, it + 1))
        x[i] = v.real("later")
        v.ensure("the record does not change when the caller changes the point", v.implies(new, v.eq(v.at(o.xopt, i), v.at(xs, i))))

    return body


for _m in (True, False):
    for _f in (True, False):
        proof(P, [CM + "tell"], name=f"cma_tell_{'min' if _m else 'max'}_{'feasible' if _f else 'infeasible'}", assume=["the adaptation of step size and covariance does not touch the record (checked at run time)"])(_tell(_m, _f, "array" if _m == _f else "scalar"))


def _first(minimize):
    def body(v):
        m = v.mod("acquisition.optim.one_plus_one_cma_es")
        d = v.int("d", 1)
        o = _cma(v, m, minimize, d, xopt=None, fopt=None, fopt_penalized=None)
        x, y, pen = v.array("x", (d,)), v.real("y"), v.real("pen")
        v.assume(pen >= 0 if minimize else pen <= 0)
        o.tell(x, y, pen)
        i = v.generic(d)
        v.ensure("the first point is recorded with its value", v.and_(v.eq(o.fopt, y), v.eq(v.at(o.xopt, i), v.at(x, i)), v.eq(o.fopt_penalized, y + pen)))

    return body


for _m in (True, False):
    proof(P, [CM + "tell"], name=f"cma_first_{'min' if _m else 'max'}")(_first(_m))


def _stop(minimize, target):
    def body(v):
        m = v.mod("acquisition.optim.one_plus_one_cma_es")
        o = _cma(v, m, minimize, v.int("d", 1), fopt=v.real("fopt"), ftarget=v.real("target") if target else None, n_restart=v.int("n_restart", 0))
        v.stub(m.OnePlusOne_CMA, "sigma", property(lambda self: self._sigma))
        o.check_stop()
        used = o.eval_count >= o.max_FEs
        hit = o._better(o.fopt, o.ftarget) if target else v.eq(1, 2)
        stag = v.or_(o._sigma < 1e-8, o._sigma > 1e8, o._delta_f < o.ftol, o._delta_x < o.xtol)
        st = o._stop if isinstance(o._stop, bool) else o._stop
        v.ensure("the search stops when the budget is used up or the target is reached", v.implies(v.or_(used, hit), SymBool(core.to_bool(lift(st)))))
        v.ensure("it stops only for a reason", v.implies(SymBool(core.to_bool(lift(st))), v.or_(used, hit, v.and_(stag, o.n_restart <= 0))))
        v.ensure("it stops when it stagnates and no restart is left", v.implies(v.and_(stag, o.n_restart <= 0), SymBool(core.to_bool(lift(st)))))
        v.ensure("a restart needs a stagnation and a restart that is left", v.implies(SymBool(core.to_bool(lift(o._restart))), v.and_(stag, o.n_restart > 0, v.not_(used))))

    return body


for _m in (True, False):
    for _t in (True, False):
        proof(P, [CM + "check_stop"], name=f"cma_stop_{'min' if _m else 'max'}{'_target' if _t else ''}")(_stop(_m, _t))


RUN = {}


@proof(P, [CM + "run", CM + "step", CM + "evaluate"], loops=RUN, assume=["ask, tell, penalize and check_stop follow their own contracts"])
def cma_run_and_count(v):
    m = v.mod("acquisition.optim.one_plus_one_cma_es")
    o = _cma(v, m, True, v.int("d", 1), xopt=v.array("xopt", (2,)), fopt=v.real("fopt"), fopt_penalized=v.real("fp"))
    ghost = dict(calls=z3.Int("calls0"))
    v.assume(v.eq(o.eval_count, wrap(ghost["calls"])))
    F = z3.Function("obj", REAL, REAL)

    def fun(x):
        ghost["calls"] = ghost["calls"] + 1
        return wrap(F(lift(x)))

    o.obj_fun = fun
    v.stub(m.OnePlusOne_CMA, "ask", lambda self: v.real(v.c.name("x")))
    v.stub(m.OnePlusOne_CMA, "penalize", lambda self, x: wrap(F(lift(x)) * 2))

    def tell(self, x, y, penalty=0):
        v.ensure("every point is reported with its own value and penalty", v.and_(v.eq(y, wrap(F(lift(x)))), v.eq(penalty, wrap(F(lift(x)) * 2))))

    def check_stop(self):
        s = v.bool(v.c.name("stop"))
        v.assume(v.implies(self.eval_count >= self.max_FEs, s))
        self._stop = s

    v.stub(m.OnePlusOne_CMA, "tell", tell)
    v.stub(m.OnePlusOne_CMA, "check_stop", check_stop)
    v.stub(m.OnePlusOne_CMA, "logging", lambda self: None)
    v.stub(m.OnePlusOne_CMA, "restart", lambda self: None)
    start = o.eval_count
    v.assume(start < o.max_FEs)

    def havoc(st):
        ghost["calls"] = z3.Int(v.c.name("calls"))
        o.eval_count, o._stop = v.int(v.c.name("ev")), v.bool(v.c.name("st"))
        return {}

    def inv(st):
        s = core.to_bool(lift(o._stop))
        return [("every call is counted", lift(o.eval_count) == ghost["calls"]), ("the budget is kept", z3.And(lift(o.eval_count) <= lift(o.max_FEs), z3.Implies(z3.Not(s), lift(o.eval_count) < lift(o.max_FEs))))]

    RUN["acquisition.optim.one_plus_one_cma_es:OnePlusOne_CMA.run#1"] = LoopContract(havoc, inv)
    x, f, st = o.run()
    v.ensure("the record is returned", x is o.xopt and f is o.fopt and st is o.stop_dict)
    v.ensure("every call is counted", v.eq(o.eval_count, wrap(ghost["calls"])))
    v.ensure("the budget is kept", o.eval_count <= o.max_FEs)


@proof(P, [CM + "ask"], assume=["the box handling returns a point of the box (C10), rounding keeps it there (C01)"])
def cma_ask(v):
    m = v.mod("acquisition.optim.one_plus_one_cma_es")
    d = v.int("d", 1)
    o = _cma(v, m, True, d, _x=v.array("parent", (d,)), _A=v.array("A", (d, d)), lb=v.array("lb", (d,)), ub=v.array("ub", (d,)))
    v.stub(m.OnePlusOne_CMA, "sigma", property(lambda self: self._sigma))
    OKD = z3.Function("dom", INT, REAL, BOOL)
    log = []

    def box(z, lb, ub):
        v.ensure("the box handling gets the bounds", lb is o.lb and ub is o.ub)
        r = v.array("boxed", (d,))
        log.append(r)
        return r

    class Sp:
        def round(self, z):
            v.ensure("rounded after the box handling", z is log[-1])
            r = v.array("rounded", (1, d))
            k = z3.Int(v.c.name("k"))
            v.c.assume(z3.ForAll([k], OKD(k, lift(v.at(r, 0, SymNum(k))))))
            return r

    o.search_space = Sp()
    v.stub(m, "handle_box_constraint", box)
    v.stub(symnp.random, "randn", lambda *a: type("Z", (), {"dot": lambda self, A: v.array(v.c.name("step"), (d,))})())
    x = o.ask()
    i = v.generic(d)
    v.ensure("the mutant is in the domain", SymBool(OKD(i.e, lift(v.at(x, i)))))
    v.ensure("one value per variable", v.and_(len(x.shape) == 1, v.eq(x.shape[0], d)))


# ---- recombination and the order of the mutations
@proof(P, [MI + "recombine"], assume=["randn returns arbitrary numbers"])
def recombination(v):
    """every variable of the child comes from one of its parents; the parents stay as they are"""
    m = v.mod("acquisition.optim.mies")
    n = v.int("n", 1)
    a, c = v.int("a", 0), v.int("c", 0)
    v.assume(v.and_(a < n, c < n))
    o = _mies(v, m, True, dim=3, _id_var=np.arange(3), _id_hyperpar=np.array([3, 4]), _len=5)
    pop = v.array("pop", (n, 5), "O")
    o.pop = pop
    v.stub(m, "randn", lambda k: v.array(v.c.name("z"), k))
    child = o.recombine(a, c)
    P0 = v.array("pop", (n, 5), "O")
    for j in range(3):
        v.ensure(f"variable {j} comes from a parent", v.or_(v.eq(v.at(child, j), v.at(P0, a, j)), v.eq(v.at(child, j), v.at(P0, c, j))))
    i = v.generic(n)
    for j in range(5):
        v.ensure(f"column {j} of the population is unchanged", v.eq(v.at(pop, i, j), v.at(P0, i, j)))
    v.ensure("as long as its parents", v.eq(child.shape[0], 5))


def _mutations(types):
    def body(v):
        """every kind of variable that is there is mutated, by the operator of its kind (each one by its contract)"""
        m = v.mod("acquisition.optim.mies")
        o = _mies(v, m, True, N_r=types.count("r"), N_i=types.count("i"), N_d=types.count("d"))
        k = len(types)
        x = v.array("x", (k,), "O")
        dom = [z3.Function(f"dom{j}", Val, BOOL) for j in range(k)]

        def op(q):
            def mutate(self, z):
                for j in range(k):
                    if types[j] == q:
                        f = v.array(v.c.name("moved"), (1,), "O")
                        v.assume(SymBool(dom[j](f._at(0))))
                        z[j] = v.at(f, 0)

            return mutate

        for name, q in (("_mutate_r", "r"), ("_mutate_i", "i"), ("_mutate_d", "d")):
            v.stub(m.MIES, name, op(q))
        out = o.mutate(x)
        for j in range(k):
            v.ensure(f"variable {j} is mutated within its domain", SymBool(dom[j](lift(v.at(out, j)))))

    return body


for _t in ("r", "i", "d", "ri", "id", "rid", "drri"):
    proof(P, [MI + "mutate"], name="mutations_" + _t, assume=["the three mutations by their own contracts (proved above)"])(_mutations(_t))


def _mies_stop(minimize, gens):
    """the evolution strategy stops when the budget is used up, and never without a reason"""

    def body(v):
        m = v.mod("acquisition.optim.mies")
        o = _mies(v, m, minimize)
        mu, lam, nbin = 4, 10, 3
        g = v.int("gens", 1) if gens else 0
        o.__dict__.update(mu_=mu, lambda_=lam, nbin=nbin, tolfun=v.real("tolfun", gt=0), max_eval=v.int("max_eval", 0), stop_dict={})
        o.eval_count = g * lam if gens else v.int("first", 0)
        o.iter_count = g
        hist = [v.real(f"h{i}") for i in range(nbin)]
        o.histfunval = m.np.array(hist)
        f = v.array("f", lam)
        o.f_offspring = f
        r = o.stop()
        stop = SymBool(core.to_bool(lift(r)))
        over = o.eval_count > o.max_eval
        v.ensure("it stops when more evaluations were made than allowed", v.implies(over, stop))
        if gens:
            h = getattr(o, "histfunval", None)
            if h is None or len(getattr(h, "shape", ())) != 1:
                raise Unsupported("another record of the best values")
            new = [v.at(h, i) for i in range(nbin)]
            some = v.or_(*[v.eq(v.at(f, 0), v.at(f, i)) for i in range(1, lam)])
            flat = v.and_(v.eq(g % nbin, 0), *[new[i] - new[j] < o.tolfun for i in range(nbin) for j in range(nbin)])
            v.ensure("it stops only for a reason: the budget, a flat history or equal values", v.implies(stop, v.or_(over, some, flat)))
        else:
            v.ensure("before the first generation only the budget counts", v.implies(stop, over))

    return body


for _m in (True, False):
    for _g in (True, False):
        proof(P, [MI + "stop"], name=f"mies_stop_{'min' if _m else 'max'}_{'later' if _g else 'first'}", timeout=20000, assume=["4 parents, 10 offspring, 3 entries of history; whole generations were evaluated"])(_mies_stop(_m, _g))
