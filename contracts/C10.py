"""C10 box handling: reflection maps any point into the box, leaves points of the box alone."""
import numpy as np

from pyvc.verify import *

P = "C10"
T1 = "bayes_optim.utils.utils.handle_box_constraint"
T2 = "bayes_optim.surrogate.gaussian_process.boundary_handling.boundary_handling"
ASSUME = ["math reals: rounding of the reflected coordinate is not modelled (bounded check only)"]


def spec(v, tag, x, o, l, u):
    """o is the reflection of x at the walls l<u"""
    w = u - l
    fl = wrap(z3.ToInt(((x - l) / w).e))
    v.ensure(f"{tag}: not below the lower bound", o >= l)
    v.ensure(f"{tag}: not above the upper bound", o <= u)
    v.ensure(f"{tag}: points of the box are unchanged", v.implies(v.and_(x >= l, x <= u), o == x))
    v.ensure(
        f"{tag}: mirror image",
        SymBool(z3.If((fl % 2 == 0).e, (o == x - w * fl).e, (o == 2 * l - x + w * (fl + 1)).e)),
    )


def bounds(v, d):
    lb, ub = v.array("lb", d), v.array("ub", d)
    v.assume(v.forall(d, lambda i: v.at(lb, i) < v.at(ub, i)))
    return lb, ub


@proof(P, T1, assume=ASSUME)
def reflect_rows(v):
    """(n, d) array of n points, n != d"""
    m = v.mod("utils.utils")
    d, n = v.int("d", 1), v.int("n", 1)
    v.assume(SymBool(n.e != d.e))
    lb, ub = bounds(v, d)
    x = v.array("x", (n, d))
    x0 = x.copy()
    out = m.handle_box_constraint(x, lb, ub)
    v.ensure("shape", v.and_(v.eq(out.shape[0], n), v.eq(out.shape[1], d)))
    i, j = v.generic(n), v.generic(d)
    spec(v, "rows", v.at(x0, i, j), v.at(out, i, j), v.at(lb, j), v.at(ub, j))


@proof(P, T1, assume=ASSUME)
def reflect_columns(v):
    """(d, n) array: points are columns"""
    m = v.mod("utils.utils")
    d, n = v.int("d", 1), v.int("n", 1)
    lb, ub = bounds(v, d)
    x = v.array("x", (d, n))
    x0 = x.copy()
    out = m.handle_box_constraint(x, lb, ub)
    v.ensure("shape", v.and_(v.eq(out.shape[0], d), v.eq(out.shape[1], n)))
    i, j = v.generic(n), v.generic(d)
    spec(v, "cols", v.at(x0, j, i), v.at(out, j, i), v.at(lb, j), v.at(ub, j))


@proof(P, T1, assume=ASSUME)
def reflect_vector(v):
    m = v.mod("utils.utils")
    d = v.int("d", 1)
    lb, ub = bounds(v, d)
    x = v.array("x", (d,))
    x0 = x.copy()
    out = m.handle_box_constraint(x, lb, ub)
    v.ensure("shape", v.eq(out.shape[0], d))
    j = v.generic(d)
    spec(v, "vector", v.at(x0, j), v.at(out, j), v.at(lb, j), v.at(ub, j))


@proof(P, T1, assume=ASSUME)
def reflect_scalar_bounds(v):
    """one pair of bounds for every coordinate"""
    m = v.mod("utils.utils")
    d = v.int("d", 1)
    l, u = v.real("l"), v.real("u")
    v.assume(l < u)
    x = v.array("x", (d,))
    x0 = x.copy()
    out = m.handle_box_constraint(x, l, u)
    j = v.generic(d)
    spec(v, "scalar bounds", v.at(x0, j), v.at(out, j), l, u)


@proof(P, T1, assume=ASSUME)
def unbounded_coordinates(v):
    """coordinates with an infinite bound are left alone; the others are reflected"""
    m = v.mod("utils.utils")
    d = v.int("d", 1)
    lb, ub = v.array("lb", d, finite=False), v.array("ub", d, finite=False)
    fin = lambda i: z3.And(core.IsFin(lb._at(i)), core.IsFin(ub._at(i)))
    v.assume(v.forall(d, lambda i: SymBool(z3.Implies(fin(i), lb._at(i) < ub._at(i)))))
    x = v.array("x", (d,))
    x0 = x.copy()
    out = m.handle_box_constraint(x, lb, ub)
    j = v.generic(d)
    v.ensure("unbounded coordinate unchanged", v.implies(SymBool(z3.Not(fin(j))), v.at(out, j) == v.at(x0, j)))
    v.ensure("bounded coordinate inside", v.implies(SymBool(fin(j)), v.and_(v.at(out, j) >= v.at(lb, j), v.at(out, j) <= v.at(ub, j))))


@proof(P, T2, assume=ASSUME)
def reflect_cma(v):
    m = v.mod("surrogate.gaussian_process.boundary_handling")
    d, n = v.int("d", 1), v.int("n", 1)
    lb, ub = bounds(v, d)
    x = v.array("x", (d, n))
    x0 = x.copy()
    out = m.boundary_handling(x, lb, ub)
    i, j = v.generic(n), v.generic(d)
    spec(v, "cma", v.at(x0, j, i), v.at(out, j, i), v.at(lb, j), v.at(ub, j))


def ref(x, l, u):
    if not (np.isfinite(l) and np.isfinite(u)):
        return x
    w = u - l
    y = (x - l) / w
    f = np.floor(y)
    fr = y - f
    return l + w * (fr if f % 2 == 0 else 1 - fr)


@bounded(P, [T1, T2], n=20000, n_thorough=160000, bound="1-6 coordinates, 1-6 points, vector/rows/columns/list/scalar-bound calls, offsets up to 1e3 widths, points on the walls, infinite bounds")
def runtime_reflection(b):
    from bayes_optim.surrogate.gaussian_process.boundary_handling import boundary_handling
    from bayes_optim.utils import handle_box_constraint

    r = b.rng
    for _ in b.loop():
        d, n = r.randint(1, 7), r.randint(1, 7)
        lb = np.round(r.uniform(-10, 10, d), r.randint(0, 5))
        ub = lb + np.round(r.uniform(0.1, 10, d), 3)
        x = lb + (ub - lb) * r.uniform(-3, 4, (n, d)) * 10.0 ** r.randint(0, 3)
        for i in range(n):
            for j in range(d):
                q = r.rand()
                if q < 0.1:
                    x[i, j] = lb[j]
                elif q < 0.2:
                    x[i, j] = ub[j]
                elif q < 0.3:
                    x[i, j] = lb[j] + 2 * (ub[j] - lb[j])
        inf = r.rand() < 0.2
        if inf:
            k = r.randint(d)
            if r.rand() < 0.5:
                lb[k] = -np.inf
            else:
                ub[k] = np.inf
        exp = np.array([[ref(x[i, j], lb[j], ub[j]) for j in range(d)] for i in range(n)])
        tol = 1e-7 * (1 + np.abs(x).max())

        def verify(o, e, x0, what):
            o = np.asarray(o, dtype=float)
            b.check(o.shape == e.shape, "shape changed: " + what, x=x0, lb=lb, ub=ub, out=o)
            b.check(np.allclose(o, e, atol=tol), "not the mirror image: " + what, x=x0, lb=lb, ub=ub, out=o, expected=e)

        mode = r.randint(5)
        if mode == 0:
            verify(handle_box_constraint(x[0].copy(), lb, ub), exp[0], x[0], "vector")
        elif mode == 1:
            verify(handle_box_constraint(x[0].tolist(), lb.tolist(), ub.tolist()), exp[0], x[0], "list")
        elif mode == 2 and n != d:
            verify(handle_box_constraint(x.copy(), lb, ub), exp, x, "rows")
        elif mode == 3:
            verify(handle_box_constraint(x.T.copy(), lb, ub), exp.T, x.T, "columns")
            verify(boundary_handling(x.T.copy(), lb[:, None], ub[:, None]), exp.T, x.T, "cma columns")
        else:
            l, u = float(r.uniform(-3, 0)), float(r.uniform(0.5, 3))
            z = r.uniform(-20, 20, d)
            o = handle_box_constraint(z.copy(), l, u)
            b.check(np.allclose(o, [ref(t, l, u) for t in z]), "scalar bounds", x=z, l=l, u=u, out=o)
