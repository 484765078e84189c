"""C09 constraint penalty: zero exactly on feasible points, positive otherwise, ordered by
violation and iteration, row-wise, sign by optimisation direction."""
import numpy as np

from pyvc.verify import *

P = "C09"
T = "bayes_optim.utils.utils.dynamic_penalty"
REALS = "math reals; x**b for b not a small integer is an uninterpreted function, monotone on x>=0 for b>0, with 0**b = 0"


def row_key(row):
    """the identity of a candidate: its (uninterpreted) content"""
    return row._at(0)


def make_con(v, name, q, scalar):
    """an arbitrary deterministic constraint function of the candidate"""
    if scalar:
        F = z3.Function(name, Val, REAL)
        return (lambda row: wrap(F(row_key(row)))), (lambda x, j: wrap(F(x)))
    F = z3.Function(name, Val, INT, REAL)
    return (
        (lambda row: SymArray._make((q,), (lambda x: lambda j: F(x, j))(row_key(row)), "f")),
        (lambda x, j: wrap(F(x, j.e))),
    )


def setup(v, use_h, use_g, scalar):
    n, d = v.int("n", 1), v.int("d", 1)
    qh, qg = v.int("qh", 1), v.int("qg", 1)
    X = v.array("X", (n, d), "O")
    h, hval = make_con(v, "h", qh, scalar)
    g, gval = make_con(v, "g", qg, scalar)
    C, alpha, beta, eps = v.real("C", gt=0), v.real("alpha", gt=0), v.real("beta", gt=0), v.real("eps", lo=0)
    t = v.int("t", 1)
    q1 = 1 if scalar else qh
    q2 = 1 if scalar else qg

    def viol(x):
        """(h violated somewhere, g violated somewhere) at candidate x as feasibility formula"""
        fs = []
        if use_h:
            fs.append(v.forall(qh, lambda j: abs(hval(x, j)) <= eps) if not scalar else abs(hval(x, None)) <= eps)
        if use_g:
            fs.append(v.forall(qg, lambda j: gval(x, j) <= 0) if not scalar else gval(x, None) <= 0)
        return v.and_(*fs)

    return dict(n=n, X=X, h=h if use_h else None, g=g if use_g else None, C=C, alpha=alpha, beta=beta, eps=eps, t=t,
                feasible=viol, hval=hval, gval=gval)


def _mk(use_h, use_g, scalar):
    nm = ("h" if use_h else "") + ("g" if use_g else "") + ("_scalar" if scalar else "_vector")

    def body(v):
        s = setup(v, use_h, use_g, scalar)
        m = v.mod("utils.utils")
        i = v.generic(s["n"])
        x = s["X"]._at(i, 0)
        p = m.dynamic_penalty(s["X"], s["t"], s["h"], s["g"], s["C"], s["alpha"], s["beta"], s["eps"], True)
        v.ensure("one value per candidate", v.eq(v.len(p), s["n"]))
        pi = v.at(p, i)
        v.ensure("non-negative when minimising", pi >= 0)
        v.ensure("zero exactly on feasible candidates", SymBool((pi == 0).e == s["feasible"](x).e))
        pm = m.dynamic_penalty(s["X"], s["t"], s["h"], s["g"], s["C"], s["alpha"], s["beta"], s["eps"], False)
        v.ensure("sign flips when maximising", v.at(pm, i) == -pi)
        # independent of the other candidates in the batch
        one = m.dynamic_penalty([s["X"][i]], s["t"], s["h"], s["g"], s["C"], s["alpha"], s["beta"], s["eps"], True)
        v.ensure("row-wise: same value when evaluated alone", v.at(one, 0) == pi)
        # later iterations never penalise less
        t2 = v.int("t2", 1)
        v.assume(t2 >= s["t"])
        p2 = m.dynamic_penalty(s["X"], t2, s["h"], s["g"], s["C"], s["alpha"], s["beta"], s["eps"], True)
        v.ensure("monotone in the iteration counter", v.at(p2, i) >= pi)

    proof(P, T, name=f"penalty_{nm}", assume=[REALS])(body)


for a, b in ((True, False), (False, True), (True, True)):
    for sc in (False, True):
        _mk(a, b, sc)


@proof(P, T, assume=[REALS])
def no_constraints(v):
    m = v.mod("utils.utils")
    n, d = v.int("n", 1), v.int("d", 1)
    X = v.array("X", (n, d), "O")
    p = m.dynamic_penalty(X, v.int("t", 1))
    v.ensure("one value per candidate", v.eq(v.len(p), n))
    v.ensure("no constraint, no penalty", v.at(p, v.generic(n)) == 0)


@proof(P, T, assume=[REALS])
def monotone_in_violation(v):
    """pointwise larger constraint values never give a smaller penalty"""
    m = v.mod("utils.utils")
    n, d, q = v.int("n", 1), v.int("d", 1), v.int("q", 1)
    X = v.array("X", (n, d), "O")
    g1, gv1 = make_con(v, "g1", q, False)
    g2, gv2 = make_con(v, "g2", q, False)
    h1, hv1 = make_con(v, "h1", q, False)
    h2, hv2 = make_con(v, "h2", q, False)
    i = v.generic(n)
    x = X._at(i, 0)
    v.assume(v.forall(q, lambda j: gv1(x, j) <= gv2(x, j)))
    v.assume(v.forall(q, lambda j: abs(hv1(x, j)) <= abs(hv2(x, j))))
    a = m.dynamic_penalty(X, 1, h1, None)
    b = m.dynamic_penalty(X, 1, h2, None)
    v.ensure("equality part monotone in |h|", v.at(a, i) <= v.at(b, i))


@proof(P, T, assume=[REALS])
def monotone_in_inequality(v):
    m = v.mod("utils.utils")
    n, d = v.int("n", 1), v.int("d", 1)
    X = v.array("X", (n, d), "O")
    g1, gv1 = make_con(v, "g1", None, True)
    g2, gv2 = make_con(v, "g2", None, True)
    i = v.generic(n)
    x = X._at(i, 0)
    v.assume(gv1(x, None) < gv2(x, None))
    v.assume(gv2(x, None) > 0)
    beta, C, alpha = v.real("beta", gt=0), v.real("C", gt=0), v.real("alpha", gt=0)
    a = m.dynamic_penalty(X, 1, None, g1, C, alpha, beta)
    b = m.dynamic_penalty(X, 1, None, g2, C, alpha, beta)
    v.ensure("a larger violation is penalised strictly more", v.at(a, i) < v.at(b, i))


def oracle(X, t, h, g, C, alpha, beta, eps, minimize):
    out = []
    for x in X:
        s = 0.0
        if h is not None:
            for val in np.atleast_1d(h(x)):
                s += abs(val) if abs(val) > eps else 0.0
        if g is not None:
            for val in np.atleast_1d(g(x)):
                s += max(0.0, val) ** beta
        out.append((C * t) ** alpha * s * (1 if minimize else -1))
    return np.array(out)


@bounded(P, [T], n=10000, n_thorough=80000, bound="1-5 candidates, 1-4 variables (mixed types), 1-3 constraints each, random t,C,alpha,beta,eps")
def runtime_penalty(b):
    from bayes_optim.utils import dynamic_penalty

    r = b.rng
    for _ in b.loop():
        n, d = r.randint(1, 6), r.randint(1, 5)
        X = [[r.randint(-3, 4) if r.rand() < 0.3 else float(np.round(r.randn() * 2, r.randint(0, 4))) for _ in range(d)] for _ in range(n)]
        if r.rand() < 0.3:
            for x in X:
                x.append("A")
        A, B_ = r.randn(3, d), r.randn(3)
        qh, qg = r.randint(1, 4), r.randint(1, 4)
        sc = r.rand() < 0.4

        def h(x, A=A, q=qh):
            val = A[:q] @ np.array(list(x)[:d], dtype=float)
            return val[0] if sc else val

        def g(x, A=A, q=qg):
            val = A[:q] @ np.array(list(x)[:d], dtype=float) + B_[:q]
            return val[0] if sc else (val.tolist() if r.rand() < 0.5 else val)

        hh, gg = (h if r.rand() < 0.6 else None), (g if r.rand() < 0.8 else None)
        t = int(r.randint(1, 20))
        kw = dict(C=float(r.uniform(0.1, 2)), alpha=float(r.uniform(0.5, 2)), beta=float(r.uniform(0.5, 3)), epsilon=float(r.choice([0.0, 0.1, 1.0])), minimize=bool(r.rand() < 0.7))
        p = dynamic_penalty(X, t, hh, gg, **kw)
        e = oracle(X, t, hh, gg, kw["C"], kw["alpha"], kw["beta"], kw["epsilon"], kw["minimize"])
        b.check(np.shape(p) == (n,), "one penalty per candidate", X=X, p=p)
        b.check(np.allclose(p, e, rtol=1e-9, atol=1e-12), "penalty differs from its definition", X=X, t=t, kw=kw, got=p, expected=e)
        # the defaults
        p1 = dynamic_penalty(X, t, hh, gg)
        e1 = oracle(X, t, hh, gg, 0.5, 1, 1.5, 0.1, True)
        b.check(np.allclose(p1, e1), "penalty differs from its definition (default parameters)", X=X, t=t, got=p1, expected=e1)
        # a single candidate given as a flat list
        q = dynamic_penalty(X[0], t, hh, gg, **kw)
        b.check(np.allclose(q, e[:1]), "single candidate given flat", X=X[0], got=q, expected=e[:1])
        # inputs are left alone
        X2 = [list(x) for x in X]
        dynamic_penalty(X2, t, hh, gg, **kw)
        b.check(X2 == X, "arguments modified", X=X)
