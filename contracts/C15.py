"""C15 fixing variables and wrapping functions."""
import itertools
import math

import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C15"
U = "bayes_optim.utils.utils."
OPTM = "bayes_optim.acquisition.optim."


# ------------------------------------------------------------------ run-time contracts
def _value(r):
    return r.choice([r.uniform(-1e3, 1e3), r.randint(-50, 50), "v%d" % r.randint(0, 9), True, False, (1, 2), (r.random(), "q"), None, float("inf")])


def _same(a, c):
    return type(a) is type(c) and a == c or (isinstance(a, (int, float, np.number)) and isinstance(c, (int, float, np.number)) and not isinstance(a, bool) and not isinstance(c, bool) and float(a) == float(c))


def _scalar(r):
    return r.choice([r.uniform(-1e3, 1e3), r.randint(-50, 50), "v%d" % r.randint(0, 9), True])


@bounded(P, [U + "partial_argument", U + "fillin_fixed_value"], n=20000, n_thorough=160000, budget=60,
         bound="1-7 variables, every number of fixed ones including none, values of all types including tuples, 1-6 points as lists, tuples, arrays or solutions, scalar, vector and (value, gradient) results")
def fixed_variables(b):
    from bayes_optim import Solution
    from bayes_optim.utils import fillin_fixed_value, partial_argument

    r = b.py
    for case in b.loop():
        d = r.randint(1, 7)
        names = r.sample(["x%d" % i for i in range(12)] + ["lr", "kernel", "a b"], d)
        k = r.randint(0, d - 1)
        fx = r.sample(names, k)
        fixed = {n: _value(r) for n in fx}
        if r.random() < 0.2:
            fixed["unknown"] = 3
        free = [n for n in names if n not in fixed]
        N = r.randint(1, 6)
        num = r.random() < 0.4
        rows = [[r.uniform(-5, 5) if num else _scalar(r) for _ in free] for _ in range(N)]
        full = [[fixed[n] if n in fixed else row[free.index(n)] for n in names] for row in rows]
        keep = [list(x) for x in rows]
        info = dict(names=names, fixed=repr(fixed), rows=rows)

        class Sp:
            var_name = list(names)

        arg = rows if r.random() < 0.7 else [tuple(x) for x in rows]
        got = fillin_fixed_value(arg, fixed, Sp())
        b.check(len(got) == N and all(len(g) == d and all(_same(p, q) for p, q in zip(g, w)) for g, w in zip(got, full)), "filled-in points", got=repr(got), want=repr(full), **info)
        b.check(rows == keep and all(set(fixed) == set(fx) | ({"unknown"} & set(fixed)) for _ in "1"), "the input was changed", **info)
        b.check(fillin_fixed_value(arg, None, Sp()) is arg and fillin_fixed_value([], fixed, Sp()) == [], "nothing to fill in", **info)

        seen = []
        single = r.random() < 0.5
        form = r.choice(["list", "array", "solution", "float"])
        X = rows[0] if single else rows
        if form == "array" or form == "float" and not num:
            X = np.array(X, dtype=object)
        elif form == "float":
            X = np.array(X, dtype=float)
        elif form == "solution":
            X = Solution(X, var_name=free)
        want = [full[0]] if single else full
        kind = r.choice(["value", "grad1", "grad2", "gradrow", "gradlist"])
        m = len(want)
        grad = [r.uniform(-3, 3) for _ in names]
        if kind == "value":
            res = np.array([r.random() for _ in range(m)])
        elif kind == "grad1":
            res = (np.array([1.5]), np.array(grad))
        elif kind == "grad2":
            res = (np.array([1.5]), np.array(grad).reshape(-1, 1))
        elif kind == "gradrow":
            res = (1.5, np.array(grad).reshape(1, -1))
        else:
            res = (1.5, list(grad))

        def fun(Z):
            seen.append([list(z) for z in Z])
            return res

        as_fixed = None if not fixed and r.random() < 0.5 else fixed
        w = partial_argument(fun, list(names), as_fixed, reduce_output=kind != "value")
        out = w(X)
        b.check(len(seen) == 1 and len(seen[0]) == m and all(len(g) == d and all(_same(p, q) for p, q in zip(g, f)) for g, f in zip(seen[0], want)), "arguments of the wrapped function", got=repr(seen), want=repr(want), kind=kind, form=form, **info)
        if kind == "value":
            b.check(out is res, "the value is not the function's", **info)
        elif not (d == 1 and kind == "gradrow"):
            gw = [g for g, n in zip(grad, names) if n not in fixed]
            b.check(float(np.ravel(out[0])[0]) == 1.5 and np.ravel(out[1]).tolist() == gw, "derivative with respect to the free variables", got=repr(out), want=gw, kind=kind, **info)
        later = dict(fixed)
        for n in list(fixed):
            fixed[n] = "changed later"
        seen.clear()
        w(X)
        b.check(all(all(_same(p, q) for p, q in zip(g, f)) for g, f in zip(seen[0], want)), "the wrapped function follows later changes of the caller's dictionary", **info)
        fixed.update(later)


@bounded(P, [U + "func_with_list_arg"], n=20000, n_thorough=160000, budget=60,
         bound="1-6 variables of all value types, 1-6 points as list, tuple, array or solution, list and dictionary form, scalar and vector results")
def list_and_dictionary_form(b):
    from bayes_optim import Solution
    from bayes_optim.utils import func_with_list_arg

    r = b.py
    for case in b.loop():
        d, N = r.randint(1, 6), r.randint(1, 6)
        names = r.sample(["x%d" % i for i in range(12)] + ["lr", "kernel", "a b"], d)
        num = r.random() < 0.3
        rows = [[r.uniform(-5, 5) if num else _scalar(r) for _ in names] for _ in range(N)]
        single = r.random() < 0.4
        form = r.choice(["list", "tuple", "array", "solution", "float"])
        X = rows[0] if single else rows
        if form == "tuple":
            X = tuple(map(tuple, X)) if not single else tuple(X)
        elif form == "array" or form == "float" and not num:
            X = np.array(X, dtype=object)
        elif form == "float":
            X = np.array(X, dtype=float)
        elif form == "solution":
            X = Solution(X, var_name=names)
        want = [rows[0]] if single else rows
        at = r.choice(["list", "dict"])
        q = r.choice([0, 0, 1, 3])
        res = [[r.uniform(-3, 3) for _ in range(max(q, 1))] for _ in want]
        seen = []

        def fun(x):
            seen.append(dict(x) if at == "dict" else list(x))
            k = len(seen) - 1
            return res[k][0] if q == 0 else res[k]

        info = dict(names=names, rows=want, form=form, arg_type=at)
        out = func_with_list_arg(fun, at, list(names))(X)
        ok = len(seen) == len(want)
        for g, w in zip(seen, want):
            vals = [g[n] for n in names] if at == "dict" and set(g) == set(names) else g if at == "list" else None
            ok = ok and vals is not None and len(vals) == d and all(_same(p, c) for p, c in zip(vals, w))
        b.check(ok, "arguments of the wrapped function", got=repr(seen), **info)
        b.check(isinstance(out, np.ndarray) and out.tolist() == [y for z in res for y in z], "values of the wrapped function", got=out, want=res, **info)


@bounded(P, [U + "arg_to_int", U + "set_bounds"], n=20000, n_thorough=160000, budget=30, bound="numbers and arithmetic expressions up to 1e6; bounds given as a number, a string, a list, a tuple or an array, 1-8 dimensions")
def number_arguments(b):
    from bayes_optim.utils import arg_to_int, set_bounds

    r = b.py
    for case in b.loop():
        a, c = r.randint(1, 999), r.randint(1, 999)
        x = r.uniform(0, 1e6)
        b.check(arg_to_int(a) == a and arg_to_int(float(a)) == a, "whole numbers", a=a)
        b.check(arg_to_int(x) == math.floor(x) and arg_to_int(-x) == -math.floor(x), "fractions are cut", x=x)
        b.check(arg_to_int(f"{a} * {c}") == a * c and arg_to_int(str(a)) == a and arg_to_int(f"{a} / {c}") == a // c, "expressions", a=a, c=c)
        for bad in ([1], None, (3,)):
            try:
                arg_to_int(bad)
                b.check(False, "not a number but accepted", bad=repr(bad))
            except ValueError:
                pass
        d = r.randint(1, 8)
        w = [r.uniform(-5, 5) for _ in range(d)]
        b.check(set_bounds(x, d).tolist() == [x] * d and set_bounds(a, d).tolist() == [a] * d, "one bound for all", x=x, d=d)
        b.check(set_bounds([x], d).tolist() == [x] * d, "one bound in a list", x=x, d=d)
        for form in (list, tuple, np.array):
            b.check(set_bounds(form(w), d).tolist() == w, "one bound per variable", w=w)
        b.check(set_bounds(str(w), d).tolist() == w, "bounds as text", w=w)
        if d > 1:
            try:
                set_bounds(w + [0.0], d)
                b.check(False, "wrong number of bounds but accepted", w=w, d=d)
            except AssertionError:
                pass


@bounded(P, ["bayes_optim.base.BaseBO.create_DoE", "bayes_optim.base.BaseBO.arg_max_acquisition", "bayes_optim.base.BaseBO._create_acquisition"], n=40, n_thorough=1500, budget=90,
         bound="mixed spaces of 2-5 variables, 0-3 fixed ones, list and dictionary form, equality and inequality constraints that check their argument, an initial design and two proposals each, with a stand-in surrogate")
def constraints_and_model_see_full_points(b):
    import bayes_optim.search_space as S
    from bayes_optim import BO
    from bayes_optim.utils.exception import AskEmptyError
    from contracts import gen

    r = b.py
    for case in b.loop():
        ss = gen.specs(b.rng, kinds=("Real", "Integer", "Discrete", "Bool"), hi=5)
        if len(ss) < 2:
            continue
        sp = gen.space(ss, S)
        names = list(sp.var_name)
        et = r.choice(["list", "dict"])
        k = r.randint(0, min(3, len(ss) - 1))
        fx = r.sample(names, k)
        pt = dict(zip(names, sp.sample(1).tolist()[0]))
        fixed = {n: pt[n] for n in fx}
        fixed = None if not fixed else dict(r.sample(list(fixed.items()), k))
        bad = []
        info = dict(space=str(ss), fixed=repr(fixed), eval_type=et)

        def look(x):
            row = [x[n] for n in names] if et == "dict" and isinstance(x, dict) and set(x) == set(names) else list(x) if et == "list" else None
            if row is None or len(row) != len(names) or (fixed and any(row[names.index(n)] != fixed[n] for n in fx)) or gen.bad_member(ss, [row]) is not None:
                bad.append(repr(x))
            return -1.0

        class M(Surrogate):
            active = False

            def predict(self, X, eval_MSE=False):
                Z = np.asarray(X, dtype=object)
                Z = Z.reshape(-1, Z.shape[-1])
                if M.active and fixed and (Z.shape[1] != len(names) or any(z[names.index(n)] != fixed[n] for z in Z for n in fx)):
                    bad.append("model: " + repr(Z.tolist()))
                return super().predict(X, eval_MSE)

        bo = BO(search_space=sp, obj_fun=lambda x: 0.0, ineq_fun=look if r.random() < 0.7 else None, model=M(), DoE_size=4, max_FEs=10, eval_type=et, acquisition_fun=r.choice(["EI", "UCB", "PI"]), acquisition_optimization=dict(AQ))
        try:
            X = bo.ask(4, fixed=fixed)
        except AskEmptyError:
            continue
        b.check(not bad, "a constraint or the model saw a wrong argument", seen=bad[:2], **info)
        rows = lambda X: [[x[n] for n in names] if isinstance(x, dict) else list(x) for x in X]
        if len(X) < 2:
            continue
        bo.tell(X, [r.uniform(0, 1) for _ in X])
        M.active = True
        for _ in range(2):
            try:
                X = bo.ask(fixed=fixed)
            except AskEmptyError:
                break
            b.check(not bad, "a constraint or the model saw a wrong argument", seen=bad[:2], **info)
            for row in rows(X):
                b.check(not fixed or all(row[names.index(n)] == fixed[n] for n in fx), "a fixed value is lost", row=repr(row), **info)
            M.active = False
            if len(X) == 0:
                break
            bo.tell(X, [r.uniform(0, 1) for _ in X])
            M.active = True


# ------------------------------------------------------------------ proofs
def _choices(d, ks):
    names = [f"n{i}" for i in range(d)]
    for k in ks:
        for sub in itertools.permutations(range(d), k):
            yield names, list(sub)


def _partial(d, single, k):
    def body(v):
        m = v.mod("utils.utils")
        for q, (names, sub) in enumerate(_choices(d, [k])):
            fv = {i: v.array(f"fixed{q}_{i}", (1,), "O") for i in sub}
            fixed = {names[i]: v.at(fv[i], 0) for i in sub}
            fixed["another"] = v.at(v.array(f"other{q}", (1,), "O"), 0)
            free = [i for i in range(d) if i not in sub]
            N = 1 if single else v.int(f"N{q}", 1)
            X = v.array(f"X{q}", (len(free),) if single else (N, len(free)), "O")
            X0 = X.copy()
            seen = []
            val = v.array(f"val{q}", (1,))
            G = v.array(f"grad{q}", (d, 1))

            def func(Z):
                seen.append(Z)
                return val, G

            w = m.partial_argument(func, names, fixed, True)
            y, g = w(X)
            t = f"fixed {sub}: "
            v.ensure(t + "one call", len(seen) == 1)
            Z = seen[0]
            v.ensure(t + "one row per point", v.and_(v.eq(Z.shape[0], N), Z.shape[1] == d))
            r = v.generic(N, f"r{q}") if not single else 0
            for i in range(d):
                want = v.at(fv[i], 0) if i in sub else (v.at(X0, free.index(i)) if single else v.at(X0, r, free.index(i)))
                v.ensure(t + f"argument {i}", v.eq(v.at(Z, r, i), want))
            v.ensure(t + "the value is the function's", y is val)
            v.ensure(t + "one derivative per free variable", v.eq(g.shape[0], len(free)))
            for c, i in enumerate(free):
                v.ensure(t + f"derivative {c} belongs to free variable {i}", v.eq(v.at(g, c, 0), v.at(G, i, 0)))
                v.ensure(t + "the point is not changed", v.eq(v.at(X, c) if single else v.at(X, r, c), v.at(X0, c) if single else v.at(X0, r, c)))

    return body


for _d in (1, 2, 3):
    for _s in (True, False):
        for _k in range(_d):
            proof(P, [U + "partial_argument"], name=f"partial_argument_{_k}_of_{_d}_{'one' if _s else 'many'}", assume=["1 to 3 variables with every subset and order of fixed ones; any number of points and any values"])(_partial(_d, _s, _k))


@proof(P, [U + "partial_argument"])
def partial_argument_values(v):
    m = v.mod("utils.utils")
    for sub in ([], [1], [2, 0]):
        fixed = {f"n{i}": v.real(f"f{i}") for i in sub}
        seen = []
        out = v.array("out", (v.int("n", 0),))

        def func(Z):
            seen.append(Z)
            return out

        X = v.array("X", (v.int("N", 1), 3 - len(sub)), "O")
        v.ensure("the result is the function's own", m.partial_argument(func, ["n0", "n1", "n2"], fixed or None)(X) is out and len(seen) == 1)


def _fill(d, k):
    def body(v):
        m = v.mod("utils.utils")

        class Sp:
            pass

        sp = Sp()
        for q, (names, sub) in enumerate(_choices(d, [k])):
            sp.var_name = names
            fv = {i: v.array(f"fixed{q}_{i}", (1,), "O") for i in sub}
            fixed = {names[i]: v.at(fv[i], 0) for i in sub}
            free = [i for i in range(d) if i not in sub]
            N = v.int(f"N{q}", 1)
            X = v.array(f"X{q}", (N, len(free)), "O")
            out = m.fillin_fixed_value(X, fixed, sp)
            v.ensure(f"{sub}: one row per point", v.eq(v.len(out), N))
            r = v.generic(N, f"r{q}")
            for i in range(d):
                v.ensure(f"{sub}: argument {i}", v.eq(v.at(out, r, i), v.at(fv[i], 0) if i in sub else v.at(X, r, free.index(i))))
            v.ensure("nothing is fixed", m.fillin_fixed_value(X, None, sp) is X)
            E = v.array("E", (0, len(free)), "O")
            v.ensure("no point", m.fillin_fixed_value(E, fixed, sp) is E)

    return body


for _d in (1, 2, 3):
    for _k in range(_d):
        proof(P, [U + "fillin_fixed_value"], name=f"fill_in_{_k}_of_{_d}", assume=["1 to 3 variables with every subset and order of fixed ones; any number of points and any values"])(_fill(_d, _k))


def _list_arg(form, at, single):
    def body(v):
        m = v.mod("utils.utils")
        names = ["a", "b"]
        N = 1 if single else v.int("N", 1)
        X = v.array("X", (2,) if single else (N, 2), "O")
        F = z3.Function("user", core.Val, core.Val, REAL)
        bad = []

        def func(x):
            if at == "dict":
                vals = [x["a"], x["b"]]
            else:
                vals = [v.at(x, 0), v.at(x, 1)]
                v.ensure("one value per variable", v.eq(v.len(x), 2))
            return wrap(F(*[core.to_val(lift(t)) for t in vals]))

        out = m.func_with_list_arg(func, at, names)(X)
        v.ensure("one value per point", v.and_(len(out.shape) == 1, v.eq(out.shape[0], N)))
        r = v.generic(N) if not single else 0
        args = [v.at(X, c) if single else v.at(X, r, c) for c in range(2)]
        v.ensure("the value of the function at the point", v.eq(v.at(out, r), wrap(F(*[core.to_val(lift(t)) for t in args]))))

    return body


for _a in ("list", "dict"):
    for _s in (True, False):
        proof(P, [U + "func_with_list_arg"], name=f"list_argument_{_a}_{'one' if _s else 'many'}", assume=["the points are kept in order by Solution (C04)"])(_list_arg("array", _a, _s))


@proof(P, [U + "arg_to_int"])
def to_int(v):
    m = v.mod("utils.utils")
    k, x = v.int("k"), v.real("x")
    v.ensure("a whole number is kept", v.eq(m.arg_to_int(k), k))
    y = m.arg_to_int(x)
    v.ensure("a fraction is cut towards zero", v.or_(v.and_(x >= 0, y <= x, x < y + 1), v.and_(x < 0, y >= x, x > y - 1)))


@proof(P, [U + "set_bounds"])
def bounds_of_every_variable(v):
    m = v.mod("utils.utils")
    d = v.int("d", 1)
    x = v.real("x")
    r = m.set_bounds(x, d)
    i = v.generic(d)
    v.ensure("one bound for all variables", v.and_(v.eq(v.len(r), d), v.eq(v.at(r, i), x)))
    w = v.array("w", (d,))
    v.assume(d >= 2)
    r = m.set_bounds(w, d)
    v.ensure("one bound per variable", v.and_(v.eq(v.len(r), d), v.eq(v.at(r, i), v.at(w, i))))


@proof(P, [OPTM + "finite_difference"], assume=["up to 3 variables"])
def central_differences(v):
    m = v.mod("acquisition.optim")
    for d in (1, 2, 3):
        F = z3.Function(f"f{d}", *([REAL] * d), REAL)
        f = lambda x, **k: (v.ensure("further arguments are handed on", set(k) == {"t"}), wrap(F(*[lift(v.at(x, i)) for i in range(d)])))[1]
        x = v.array(f"x{d}", (d,))
        e = v.real(f"e{d}", gt=0)
        g = m.finite_difference(f, x, e, t=3)
        v.ensure("one derivative per variable", v.and_(v.eq(g.shape[0], d), v.eq(g.shape[1], 1)))
        for i in range(d):
            at = lambda s: wrap(F(*[lift(v.at(x, j) + s * e if j == i else v.at(x, j)) for j in range(d)]))
            v.ensure(f"derivative {i} of {d}", v.eq(v.at(g, i, 0), (at(1) - at(-1)) / (2 * e)))


def _penalized(use_h, use_g):
    def body(v):
        m = v.mod("acquisition.optim")
        d = 2
        x = v.array("x", (d,))
        val, grad = v.array("val", (1,)), v.array("grad", (d, 1))
        h, g = (lambda x: 0) if use_h else None, (lambda x: 0) if use_g else None
        PEN, DP = v.array("pen", (1,)), v.array("dpen", (d, 1))
        ts = []

        def pen(z, t=None, equality=None, inequality=None):
            ts.append(t)
            v.ensure("the penalty of the point with both constraints", z is x and equality is h and inequality is g)
            return PEN

        def fd(f, z, **k):
            v.ensure("the derivative of that penalty", z is x and f is pen and k["equality"] is h and k["inequality"] is g and k["t"] == ts[-1])
            return DP

        v.stub(m, "dynamic_penalty", pen)
        v.stub(m, "finite_difference", fd)

        def func(z):
            v.ensure("the function is evaluated at the point", z is x)
            return val, grad

        o = m.Penalized(func, h, g)
        for k in range(2):
            f, df = o(x)
            p = use_h or use_g
            v.ensure("value to minimize", v.eq(v.at(f, 0), -v.at(val, 0) + (v.at(PEN, 0) if p else 0)))
            for i in range(d):
                v.ensure(f"derivative {i}", v.eq(v.at(df, i, 0), -v.at(grad, i, 0) + (v.at(DP, i, 0) if p else 0)))
        if use_h or use_g:
            v.ensure("the penalty grows with the evaluations", len(ts) == 2 and ts[0] > 0 and ts[1] > ts[0])

    return body


for _h in (True, False):
    for _g in (True, False):
        proof(P, [OPTM + "Penalized.__call__"], name=f"penalized_{'h' if _h else ''}{'g' if _g else ''}", assume=["dynamic_penalty follows its contract (C09), finite_difference its own"])(_penalized(_h, _g))
