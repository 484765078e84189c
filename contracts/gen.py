"""Generators and independent oracles for the bounded runtime contracts (plain numpy, real package)."""
import math

import numpy as np

LEVELS = ["OK", "A", "B", "C", "D", "E", "F", "G"]


def spec_real(r, scale=None, precision="any", wide=True):
    scale = scale or r.choice(["linear"] * 5 + ["log", "log10", "logit", "bilog"])
    p = (r.choice([None, None, None, 0, 1, 2, 3]) if scale == "linear" else None) if precision == "any" else precision
    if scale in ("log", "log10"):
        lb = 10 ** r.uniform(-4, 2)
        ub = lb * 10 ** r.uniform(0.1, 3)
    elif scale == "logit":
        lb = r.uniform(0.01, 0.5)
        ub = r.uniform(0.55, 0.99)
    elif scale == "bilog":
        lb = r.uniform(-100, 50)
        ub = lb + r.uniform(0.1, 100)
    else:
        w = r.choice([1, 10, 1e3]) if wide else 5
        lb = r.uniform(-w, w)
        ub = lb + r.uniform(0.05, 2) * w
        if r.random_sample() < 0.3:
            lb, ub = math.floor(lb), math.floor(lb) + int(1 + r.randint(1, 9))
            lb, ub = float(lb), float(ub)
    return dict(type="Real", bounds=[float(lb), float(ub)], precision=p, scale=scale)


def spec_int(r, step=None):
    lb = int(r.randint(-20, 20))
    step = step or int(r.choice([1, 1, 1, 2, 3, 5]))
    return dict(type="Integer", bounds=[lb, lb + int(r.randint(max(step, 1), 30)) + 1], step=step)


def spec_cat(r, kind=None):
    kind = kind or r.choice(["Discrete", "Discrete", "Ordinal"])
    k = int(r.randint(2, 6))
    if kind == "Ordinal":
        return dict(type="Ordinal", bounds=sorted(int(x) for x in r.choice(50, k, replace=False)))
    return dict(type=str(kind), bounds=[str(x) for x in r.permutation(LEVELS)[:k]])


def spec_bool(r):
    return dict(type="Bool", bounds=[False, True])


def spec_subset(r):
    return dict(type="Subset", bounds=[str(x) for x in r.permutation(LEVELS)[: int(r.randint(2, 4))]])


MAKERS = dict(Real=spec_real, Integer=spec_int, Discrete=spec_cat, Bool=spec_bool, Subset=spec_subset)


def specs(r, n=None, kinds=("Real", "Integer", "Discrete", "Bool", "Subset"), pool=None, lo=1, hi=6):
    n = n or int(r.randint(lo, hi))
    out = [MAKERS[str(r.choice(list(kinds)))](r) for _ in range(n)]
    for i, s in enumerate(out):
        s["name"] = f"v{i}_{s['type'][0].lower()}"
    return out


def build(s, S, **kw):
    """S: the search_space module"""
    t = s["type"]
    if t == "Real":
        return S.Real(s["bounds"], name=s["name"], precision=s["precision"], scale=s["scale"], **kw)
    if t == "Integer":
        return S.Integer(s["bounds"], name=s["name"], step=s["step"], **kw)
    if t == "Bool":
        return S.Bool(name=s["name"], **kw)
    return getattr(S, t)(s["bounds"], name=s["name"], **kw)


def space(ss, S, **kw):
    return S.SearchSpace([build(s, S) for s in ss], **kw)


def subset_levels(b):
    from itertools import combinations

    return {tuple(c) for r in range(1, len(b) + 1) for c in combinations(b, r)}


def member(s, x):
    """is x in the domain that the specification declares (independent of the package)"""
    t, b = s["type"], s["bounds"]
    if t == "Real":
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, float, np.integer, np.floating)):
            return False
        x = float(x)
        tol = (1e-9 if s["scale"] != "linear" else 1e-13) * max(1.0, abs(b[0]), abs(b[1]))
        if s["precision"] is not None:
            near = abs(x - round(x, s["precision"])) <= 1e-9 * max(1.0, abs(x))
            if not (near or x == b[0] or x == b[1]):
                return False
            tol = 0.0
        return math.isfinite(x) and b[0] - tol <= x <= b[1] + tol
    if t == "Integer":
        if isinstance(x, (bool, np.bool_)) or not isinstance(x, (int, np.integer, float, np.floating)):
            return False
        return float(x) == int(x) and b[0] <= int(x) <= b[1] and (int(x) - b[0]) % s["step"] == 0
    if t == "Bool":
        return isinstance(x, (bool, np.bool_))
    if t == "Subset":
        return tuple(x) in subset_levels(b)
    if t == "Ordinal":
        return not isinstance(x, str) and float(x) in [float(y) for y in b]
    return isinstance(x, str) and x in b


def bad_member(ss, X):
    """first (row, column) of X outside the declared domain, or None"""
    for i, row in enumerate(X):
        if len(row) != len(ss):
            return (i, None)
        for j, s in enumerate(ss):
            if not member(s, row[j]):
                return (i, j, row[j], s)
    return None
