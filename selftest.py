#!/opt/venv/bin/python
"""selftest.py [name ...]: cross-checks of the verifier itself (not part of any check's verdict).

1. differential: every operation of OPS is run by CPython on concrete arrays and, rewritten by transform.py like the
   package's own source, on symbolic arrays of symbolic length whose length and contents are pinned to the same
   values by assumptions; the solver has to prove that the two results agree in shape and in every element.
2. refutation: the same results shifted by one must NOT be provable (the axioms used are consistent, and a wrong
   expectation is noticed).
3. negative: small programs with a planted error must be refuted, true ones proved.
4. cells: the box decompositions of /repo run on concrete values with torch and with pyvc/celltorch.py: same cells, same volume.
5. lemma_prefix: the induction behind the axiom on enumerations of prefixes (symnp.mask_gather).
exit 0 when everything agrees."""
import os

os.environ.update(OMP_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.environ.get("PYVC_REPO", "/repo")]
import ast
import multiprocessing as mp
import textwrap
import warnings

import numpy as np

warnings.simplefilter("ignore")
from pyvc import core, loader, runtime, symnp, transform, verify
from pyvc.core import z3

# name: (source of f(np, ...), [argument shapes: letters are lengths], kinds)
OPS = {}


def op(name, args, src):
    OPS[name] = (args, textwrap.dedent(src))


# argument notation: "f:n" float vector of length n, "i:n,m" int matrix, "b:n" mask, "x:n" indices below n
E = "def f(np, {}):\n    return {}\n"


def ex(name, params, args, expr):
    op(name, args, E.format(params, expr))


for o in "+ - * < <= > >= == !=".split():
    ex(f"binary {o}", "a, b", ["f:n", "f:n"], f"a {o} b")
ex("division", "a, b", ["f:n", "p:n"], "a / b")
ex("floor division", "a, b", ["i:n", "q:n"], "a // b")
ex("modulo", "a, b", ["i:n", "q:n"], "a % b")
ex("scalar left", "a", ["f:n"], "2 - a * 3")
ex("power two", "a", ["f:n"], "a ** 2")
ex("negation", "a", ["f:n"], "-a")
ex("mask and", "a, b", ["b:n", "b:n"], "a & b")
ex("mask or", "a, b", ["b:n", "b:n"], "a | b")
ex("mask not", "a", ["b:n"], "~a")
ex("broadcast row", "a, b", ["f:n,m", "f:m"], "a + b")
ex("broadcast column", "a, b", ["f:n,m", "f:n"], "a * b[:, np.newaxis]")
ex("outer", "a, b", ["f:n", "f:m"], "a[:, None] - b[None, :]")
ex("abs", "a", ["f:n"], "np.abs(a)")
ex("sign", "a", ["f:n"], "np.sign(a)")
ex("floor", "a", ["f:n"], "np.floor(a)")
ex("ceil", "a", ["f:n"], "np.ceil(a)")
ex("rint", "a", ["f:n"], "np.rint(a)")
ex("mod", "a", ["f:n"], "np.mod(np.floor(a), 2)")
ex("minimum", "a, b", ["f:n", "f:n"], "np.minimum(a, b)")
ex("maximum", "a, b", ["f:n", "f:n"], "np.maximum(a, 0)")
ex("clip", "a", ["f:n"], "np.clip(a, -1, 1)")
ex("isclose", "a, b", ["f:n", "f:n"], "np.isclose(a, b, atol=0.3)")
ex("where", "a, b, c", ["b:n", "f:n", "f:n"], "np.where(a, b, c)")
ex("bitwise_and", "a, b", ["b:n", "b:n"], "np.bitwise_and(a, b)")
ex("all", "a", ["b:n"], "np.all(a)")
ex("any", "a", ["b:n"], "np.any(a)")
ex("all rows", "a", ["b:n,m"], "np.all(a, axis=1)")
ex("any columns", "a", ["b:n,m"], "np.any(a, axis=0)")
ex("min", "a", ["f:n1"], "np.min(a)")
ex("max", "a", ["f:n1"], "np.max(a)")
ex("min columns", "a", ["f:n1,m"], "np.min(a, axis=0)")
ex("max rows", "a", ["f:n,m1"], "np.max(a, axis=1)")
ex("argmin", "a", ["f:n1"], "np.argmin(a)")
ex("argmax", "a", ["f:n1"], "np.argmax(a)")
ex("len", "a", ["f:n,m"], "len(a)")
ex("shape", "a", ["f:n,m"], "a.shape")
ex("size", "a", ["f:n"], "a.size")
ex("transpose", "a", ["f:n,m"], "a.T")
ex("row", "a", ["f:n1,m"], "a[0]")
ex("last row", "a", ["f:n1,m"], "a[-1]")
ex("column", "a", ["f:n,m1"], "a[:, 0]")
ex("slice", "a", ["f:n"], "a[1:]")
ex("slice end", "a", ["f:n"], "a[:2]")
ex("slice negative", "a", ["f:n"], "a[:-1]")
ex("slice reversed", "a", ["f:n"], "a[::-1]")
ex("fancy", "a, b", ["f:n1", "x:k<n1"], "a[b]")
ex("fancy rows", "a, b", ["f:n1,m", "x:k<n1"], "a[b, :]")
ex("fancy columns", "a, b", ["f:n,m1", "x:k<m1"], "a[:, b]")
ex("mask", "a, b", ["f:n", "b:n"], "a[b]")
ex("mask rows", "a, b", ["f:n,m", "b:n"], "a[b, :]")
ex("mask columns", "a, b", ["f:n,m", "b:m"], "a[:, ~b]")
ex("mask comparison", "a", ["f:n"], "a[a > 0]")
ex("nonzero", "a", ["b:n"], "np.nonzero(a)[0]")
ex("flatnonzero", "a", ["f:n"], "np.flatnonzero(a < 0)")
ex("concatenate", "a, b", ["f:n", "f:m"], "np.concatenate([a, b])")
ex("concatenate rows", "a, b", ["f:n,m", "f:k,m"], "np.concatenate([a, b], axis=0)")
ex("concatenate columns", "a, b", ["f:n,m", "f:n,k"], "np.concatenate([a, b], axis=1)")
ex("r_", "a, b", ["f:n", "f:m"], "np.r_[a, b]")
ex("c_", "a, b", ["f:n,m", "f:n,k"], "np.c_[a, b]")
ex("vstack", "a, b", ["f:n,m", "f:k,m"], "np.vstack([a, b])")
ex("delete columns", "a", ["f:n,3"], "np.delete(a, [0, 2], 1)")
ex("tile", "a", ["f:n"], "np.tile(a, (3, 1))")
ex("repeat", "a", ["f:n"], "np.repeat(1.5, len(a))")
ex("zeros", "a", ["f:n"], "np.zeros(len(a))")
ex("ones", "a", ["f:n"], "np.ones((len(a), 2))")
ex("full", "a", ["f:n"], "np.full(len(a), 1.5)")
ex("zeros_like", "a", ["f:n,m"], "np.zeros_like(a)")
ex("arange", "a", ["f:n"], "np.arange(len(a))")
ex("arange two", "a", ["f:n"], "np.arange(1, len(a) + 1)")
ex("arange mask", "a", ["f:n"], "a[np.arange(len(a)) != 1]")
ex("eye", "a", ["f:n"], "np.eye(len(a))")
ex("ravel matrix", "a", ["f:n,2"], "a.ravel()")
ex("reshape row", "a", ["f:n"], "a.reshape(1, -1)")
ex("reshape column", "a", ["f:n"], "a.reshape(-1, 1)")
ex("atleast_2d", "a", ["f:n"], "np.atleast_2d(a)")
ex("atleast_3d", "a", ["f:n"], "np.atleast_3d(a)")
ex("atleast_3d of a matrix", "a", ["f:n,m"], "np.atleast_3d(a)")
ex("product of a tensor", "a, b", ["f:2,3", "f:3,2"], "np.atleast_3d([a, a + 1]).dot(b)[..., 0]")
ex("product of a tensor and a vector", "a, b", ["f:2,3", "f:3"], "np.dot(np.atleast_3d([a, a + 1]), b)")
ex("atleast_3d of a list", "a", ["f:n,m"], "np.atleast_3d([a, a + 1])")
ex("atleast_1d", "a", ["f:n"], "np.atleast_1d(a)")
ex("squeeze", "a", ["f:n"], "a.reshape(-1, 1)[:, 0]")
ex("astype int", "a", ["f:n"], "a.astype(int)")
ex("astype float", "a", ["i:n"], "a.astype(float) / 2")
ex("sum small", "a", ["f:n"], "np.sum(a[:3])")
ex("product rows", "a", ["f:n,3"], "np.prod(a, axis=1)")
ex("product of columns", "a", ["f:2,n"], "np.prod(a, 0)")
ex("sum rows", "a", ["f:n,2"], "np.sum(a, axis=1)")
ex("mean rows", "a", ["f:n,2"], "np.mean(a, axis=1)")
ex("dot", "a, b", ["f:n,2", "f:2"], "a.dot(b)")
ex("matmul", "a, b", ["f:n,2", "f:2,m"], "a @ b")
ex("sort", "a", ["d:n"], "np.sort(a)")
ex("argsort", "a", ["d:n"], "np.argsort(a)")
ex("argsort reversed", "a", ["d:n"], "np.argsort(a)[::-1][:2]")
ex("lexsort", "a, b", ["i:n", "d:n"], "np.lexsort((b, a))")
ex("isfinite", "a", ["f:n"], "np.isfinite(a)")
ex("comprehension", "a", ["f:n"], "np.array([2 * x + 1 for x in a])")
ex("comprehension rows", "a", ["f:n,m1"], "np.array([r[0] - r[-1] for r in a])")
ex("comprehension filter", "a", ["i:n"], "[x for x in a.tolist() if x > 0]")
ex("enumerate", "a", ["f:n"], "[i * x for i, x in enumerate(a)]")
ex("zip", "a, b", ["f:n", "f:n"], "[x - y for x, y in zip(a, b)]")
ex("range", "a", ["f:n"], "[i + 1 for i in range(len(a))]")
ex("any generator", "a", ["f:n"], "any(x > 1 for x in a)")
ex("all generator", "a", ["f:n"], "all(x > -1 for x in a)")
ex("list plus", "a, b", ["i:n", "i:m"], "a.tolist() + b.tolist()")
ex("list slice", "a", ["i:n"], "a.tolist()[1:]")
ex("list map", "a", ["f:n"], "list(map(lambda t: t + 1, a.tolist()))")
ex("in list", "a", ["i:n"], "2 in a.tolist()")
ex("min max of two", "a", ["f:n1"], "max(min(a[0], 1.0), 0.0)")
ex("ifexp", "a", ["f:n1"], "a[0] if a[0] > 0 else -a[0]")
op("set element", ["f:n1"], "def f(np, a):\n    b = a.copy()\n    b[0] = 7\n    return np.concatenate([a, b])\n")
op("set mask", ["f:n", "b:n"], "def f(np, a, b):\n    a = a.copy()\n    a[b] = 0\n    return a\n")
op("set mask values", ["f:n", "b:n"], "def f(np, a, b):\n    c = np.zeros(len(a))\n    c[b] = a[b] * 2\n    c[~b] = -a[~b]\n    return c\n")
op("set slice", ["f:n", "f:n"], "def f(np, a, b):\n    a = a.copy()\n    a[1:] = b[1:]\n    return a\n")
op("set column", ["f:n,m1", "f:n"], "def f(np, a, b):\n    a = a.copy()\n    a[:, 0] = b\n    return a\n")
op("set mask columns", ["f:n,m", "b:m"], "def f(np, a, b):\n    a = a.copy()\n    a[:, b] = 5\n    return a\n")
op("set fancy columns", ["f:n,3"], "def f(np, a):\n    a = a.copy()\n    a[:, [2, 0]] = a[:, [0, 1]]\n    return a\n")
op("set fancy pair", ["f:3,3"], "def f(np, a):\n    a = a.copy()\n    a[[0, 2], [1, 2]] = 4\n    return a\n")
op("view write", ["f:n1,m"], "def f(np, a):\n    a = a.copy()\n    r = a[0]\n    r[:] = 3\n    return a\n")
op("row ravel write", ["f:n1,m"], "def f(np, a):\n    a = a.copy()\n    r = a[0:1].ravel()\n    r[:] = 3\n    return a\n")
op("column of a vector write", ["f:n1"], "def f(np, a):\n    a = a.copy()\n    r = a.reshape(-1, 1)\n    r[0] = 3\n    return a\n")
op("row of a vector write", ["f:n1"], "def f(np, a):\n    a = a.copy()\n    r = a.reshape(1, -1)\n    r[0, 0] = 3\n    return a\n")
op("column of a row write", ["f:n1"], "def f(np, a):\n    b = np.atleast_2d(a.copy())\n    r = b.reshape(len(a), -1)\n    r[0] = 3\n    return b\n")
op("flat column write", ["f:n1,1"], "def f(np, a):\n    b = a.copy()\n    r = b.ravel()\n    r[0] = 3\n    return b\n")
op("in place", ["f:n", "f:n"], "def f(np, a, b):\n    c = a.copy()\n    c += b\n    c *= 2\n    return c - a\n")
op("branch", ["f:n1"], "def f(np, a):\n    if a[0] > 0 and a[-1] < 2:\n        return a + 1\n    elif not a[0] > -1:\n        return -a\n    return a * 0\n")
op("early return in scan", ["f:n"], "def f(np, a):\n    return [0 if x < 0 else (1 if x == 0 else 2) for x in a]\n")
op("try", ["f:n1"], "def f(np, a):\n    try:\n        if a[0] > 0:\n            raise ValueError('x')\n        r = a\n    except ValueError:\n        r = a + 1\n    return r\n")
op("pointwise loop", ["f:n"], "def f(np, a):\n    b = np.zeros(len(a))\n    for i in range(len(a)):\n        b[i] = a[i] * i\n    return b\n")
op("append loop", ["f:n"], "def f(np, a):\n    out = []\n    for x in a:\n        out += [x + 1]\n    return out\n")


def parse(arg, sizes, r):
    kind, sh = arg.split(":")
    if kind == "x":
        k, n = sh.split("<")
        n_ = size(n, sizes, r)
        return r.randint(0, n_, size(k, sizes, r)), "i", [k]
    dims = [d for d in sh.split(",")]
    shape = tuple(size(d, sizes, r) for d in dims)
    if kind == "f":
        return r.randint(-8, 9, shape) / 4.0, "f", dims
    if kind == "d":  # distinct
        return r.permutation(9)[: shape[0]] / 2.0 - 2, "f", dims
    if kind == "p":
        return 2.0 ** r.randint(-2, 3, shape) * r.choice([-1, 1], shape), "f", dims
    if kind == "q":
        return r.randint(1, 4, shape), "i", dims
    if kind == "i":
        return r.randint(-3, 4, shape), "i", dims
    return r.rand(*shape) < 0.5, "b", dims


def size(d, sizes, r):
    if d.isdigit():
        return int(d)
    if d not in sizes:
        sizes[d] = r.randint(1 if d.endswith("1") else 0, 4)
    return sizes[d]


def pinned(v, sizes, lens, name, val, kind, dims):
    shape = []
    for d in dims:
        if d.isdigit():
            shape.append(int(d))
            continue
        if d not in lens:
            lens[d] = v.int("len_" + d, 0)
            v.assume(lens[d] == int(sizes[d]))
        shape.append(lens[d])
    a = v.array(name, tuple(shape) if len(shape) > 1 else shape[0], kind)
    for ix in np.ndindex(val.shape):
        x = val[ix]
        x = bool(x) if kind == "b" else int(x) if kind == "i" else float(x)
        v.assume(v.eq(v.at(a, *ix), x) if kind != "b" else (v.at(a, *ix) if x else v.not_(v.at(a, *ix))))
    return a


def agree(v, got, want, shift=0):
    """conjunction: shape and elements of the symbolic result equal the concrete one"""
    if isinstance(want, tuple):
        return v.and_(len(got) == len(want), *[agree(v, g, w, shift) for g, w in zip(got, want)])
    if isinstance(want, (bool, np.bool_)):
        g = core.wrap(core.to_bool(core.lift(got)))
        return g if bool(want) != bool(shift) else v.not_(g)
    if isinstance(want, (int, float, np.number)):
        return v.eq(got, want.item() + shift if isinstance(want, np.generic) else want + shift)
    w = np.asarray(want)
    if isinstance(got, (list, symnp.SymSeq)):
        s = symnp.to_seq(got)
        cs = [v.eq(symnp.L(symnp.I(s.n)), len(want))]
        cs += [agree(v, s.at(k), x, shift) for k, x in enumerate(want)]
        return v.and_(*cs)
    g = symnp.to_symarray(got)
    if g.ndim != w.ndim:
        return core.SymBool(z3.BoolVal(False))
    cs = [v.eq(symnp.L(symnp.I(a)), int(b)) for a, b in zip(g._shape, w.shape)]
    for ix in np.ndindex(w.shape):
        cs.append(agree(v, v.at(g, *ix), w[ix], shift))
    return v.and_(*cs)


def shadow_fn(src):
    tree = transform.rewrite(src, "selftest", "<selftest>")
    ns = {"__builtins__": dict(runtime.BUILTINS, __import__=loader.shadow_import), "_pyvc_": runtime, "__name__": "vbo.selftest"}
    exec(compile(tree, "<selftest>", "exec"), ns)
    return ns["f"]


def case(job):
    name, seed = job
    args, src = OPS[name]
    r = np.random.RandomState(seed)
    sizes = {}
    vals = [parse(a, sizes, r) for a in args]
    ns = {}
    exec(src, ns)
    want = ns["f"](np, *[x[0].copy() for x in vals])
    out = []
    for shift in (0, 1):
        if shift and (np.size(want) == 0 or isinstance(want, tuple)):
            continue

        def proof(v):
            lens = {}
            sym = [pinned(v, sizes, lens, f"a{k}", *x) for k, x in enumerate(vals)]
            got = shadow_fn(src)(symnp.np, *sym)
            v.ensure("same as CPython" if not shift else "shifted", agree(v, got, want, shift))

        pr = verify.Proof("T", name, proof, [], timeout=8000)
        res = verify.run_proof(pr, wall=100)
        st = res["status"]
        ok = st == "proved" if not shift else st in ("failed", "unknown")
        if not ok:
            out.append(f"{name} seed {seed} {'shifted ' if shift else ''}{st} {res.get('detail', '')[:160]} inputs={[x[0].tolist() for x in vals]} want={np.asarray(want, dtype=object).tolist()}")
    return out


# ---------------------------------------------------------------- programs with and without a planted error
NEG = {
    "abs": ("def f(np, a):\n    return np.where(a < 0, -a, a)\n", lambda v, a, o, n: v.forall(n, lambda i: v.at(o, i) >= 0), True),
    "abs wrong": ("def f(np, a):\n    return np.where(a < 1, -a, a)\n", lambda v, a, o, n: v.forall(n, lambda i: v.at(o, i) >= 0), False),
    "mask keeps": ("def f(np, a):\n    return a[a > 0]\n", lambda v, a, o, n: v.and_(o.shape[0] <= n, v.forall(o.shape[0], lambda i: v.at(o, i) > 0)), True),
    "mask wrong": ("def f(np, a):\n    return a[a >= 0]\n", lambda v, a, o, n: v.forall(o.shape[0], lambda i: v.at(o, i) > 0), False),
    "mask loses": ("def f(np, a):\n    return a[a > 0]\n", lambda v, a, o, n: v.eq(o.shape[0], n), False),
    "min": ("def f(np, a):\n    return np.min(a)\n", lambda v, a, o, n: v.forall(n, lambda i: o <= v.at(a, i)), True),
    "min wrong": ("def f(np, a):\n    return np.max(a)\n", lambda v, a, o, n: v.forall(n, lambda i: o <= v.at(a, i)), False),
    "sorted": ("def f(np, a):\n    return a[np.argsort(a)]\n", lambda v, a, o, n: v.forall(n - 1, lambda i: v.at(o, i) <= v.at(o, i + 1)), True),
    "sorted wrong": ("def f(np, a):\n    return a[np.argsort(a)[::-1]]\n", lambda v, a, o, n: v.forall(n - 1, lambda i: v.at(o, i) <= v.at(o, i + 1)), False),
    "off by one": ("def f(np, a):\n    b = np.zeros(len(a))\n    for i in range(len(a) - 1):\n        b[i] = a[i]\n    return b\n", lambda v, a, o, n: v.forall(n, lambda i: v.eq(v.at(o, i), v.at(a, i))), False),
    "aliasing": ("def f(np, a):\n    b = a\n    b[0] = 1\n    return a\n", lambda v, a, o, n: v.eq(v.at(o, 0), 1), True),
    "aliasing wrong": ("def f(np, a):\n    b = a.copy()\n    b[0] = 1\n    return a\n", lambda v, a, o, n: v.eq(v.at(o, 0), 1), False),
}


def neg(name):
    src, spec, holds = NEG[name]

    def proof(v):
        n = v.int("n", 1)
        a = v.array("a", n)
        o = shadow_fn(src)(symnp.np, a)
        v.ensure("spec", spec(v, a, o, n))

    res = verify.run_proof(verify.Proof("T", name, proof, [], timeout=8000), wall=100)
    ok = (res["status"] == "proved") if holds else res["status"] == "failed"
    return [] if ok else [f"negative {name}: {res['status']} {res.get('detail', '')}"]


def lemma_prefix():
    """for a mask M and n1 <= n2: the increasing enumeration of {i < n1: M(i)} is a prefix of that of {i < n2: M(i)}.
    Induction on n2, in terms of the rank function: cnt(0) = 0, cnt(i+1) = cnt(i) + [M(i)]; the enumeration s_n of the
    prefix n satisfies s_n(k) = i  <=>  i < n, M(i), cnt(i) = k (it is the inverse of the rank on the selected indices),
    which does not mention n except for i < n. Obligations: (a) cnt is monotone (step), (b) the inverses agree for k < cnt(n1),
    (c) for cnt(n1) <= k < cnt(n2) the enumerated index is at least n1."""
    I, B = z3.IntSort(), z3.BoolSort()
    M, cnt = z3.Function("M", I, B), z3.Function("cnt", I, I)
    s1, s2 = z3.Function("s1", I, I), z3.Function("s2", I, I)
    i, j, k, n1, n2, n = z3.Ints("i j k n1 n2 n")
    rec = [cnt(0) == 0, z3.ForAll([i], z3.Implies(i >= 0, cnt(i + 1) == cnt(i) + z3.If(M(i), 1, 0)))]
    out = []

    def prove(tag, hyp, goal):
        s = z3.Solver()
        s.set("timeout", 20000)
        s.add(*hyp)
        s.add(z3.Not(goal))
        if s.check() != z3.unsat:
            out.append(f"lemma_prefix {tag}: not proved")

    mono = lambda n: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= n), cnt(i) <= cnt(n)))
    prove("monotone, base", rec, mono(z3.IntVal(0)))
    prove("monotone, step", rec + [n >= 0, mono(n)], mono(n + 1))
    monoall = z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j), cnt(i) <= cnt(j)))
    enum = lambda s, N: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < cnt(N)), z3.And(0 <= s(k), s(k) < N, M(s(k)), cnt(s(k)) == k)))
    # two selected indices with the same rank are equal (strictness at selected indices)
    a, b = z3.Ints("a b")
    strict = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, M(a)), cnt(a) + 1 <= cnt(b)))
    prove("strict", rec + [monoall, 0 <= a, a < b, M(a)], cnt(a) + 1 <= cnt(b))
    hyp = rec + [monoall, strict, 0 <= n1, n1 <= n2, enum(s1, n1), enum(s2, n2)]
    prove("prefix", hyp + [0 <= k, k < cnt(n1)], s1(k) == s2(k))
    prove("rest", hyp + [cnt(n1) <= k, k < cnt(n2)], s2(k) >= n1)
    prove("rank of n1", hyp + [n1 < n2, M(n1)], s2(cnt(n1)) == n1)
    return out


def cells(seed):
    """the box decompositions of /repo on concrete values: with torch, and with pyvc/celltorch.py in its place"""
    import random

    import numpy as np
    import torch

    from bayes_optim.utils.multi_objective import pareto
    from bayes_optim.utils.multi_objective.box_decompositions import box_decomposition, non_dominated, utils
    from pyvc.celltorch import CT, CellTorch

    r = random.Random(seed)
    bad = []
    for _ in range(40):
        n, m, k = r.randint(0, 5), r.choice([2, 3, 4]), r.randint(0, 3)
        Y, Y2 = [np.array([[r.choice([r.uniform(-2, 3), float(r.randint(-1, 3))]) for _ in range(m)] for _ in range(q)]).reshape(q, m) for q in (n, k)]
        ref = np.array([float(r.randint(-2, 1)) for _ in range(m)])
        K = r.choice([non_dominated.NondominatedPartitioning, non_dominated.FastNondominatedPartitioning])

        def run(T):
            d = K(ref_point=T(ref), Y=T(Y))
            if k:
                d.update(T(Y2))
            return d.get_hypercell_bounds(), d.compute_hypervolume()

        want = [q.numpy() for q in run(lambda a: torch.tensor(a, dtype=torch.double))]
        saved = []
        fake = CellTorch()
        INF = float("inf")
        for q in (box_decomposition, non_dominated, utils):
            for name, val in (("torch", fake), ("is_non_dominated", lambda t: CT(np.array([bool(b) for b in pareto.is_non_dominated(torch.tensor(t.n.astype(float)))], dtype=object)))):
                if hasattr(q, name):
                    saved.append((q, name, getattr(q, name)))
                    setattr(q, name, val)
        reg = box_decomposition.BoxDecomposition.__dict__.get("register_buffer")
        box_decomposition.BoxDecomposition.register_buffer = lambda self, name, t, persistent=True: object.__setattr__(self, name, t)
        from pyvc import celltorch

        lift0 = celltorch._lift
        celltorch._lift = lambda x: x
        try:
            got = [q.n.astype(float) for q in run(lambda a: CT(a.astype(object)))]
        finally:
            celltorch._lift = lift0
            for q, name, val in saved:
                setattr(q, name, val)
            if reg is None:
                del box_decomposition.BoxDecomposition.register_buffer
            else:
                box_decomposition.BoxDecomposition.register_buffer = reg
        for g, w in zip(got, want):
            if g.shape != w.shape or not np.allclose(g, w, rtol=1e-12, atol=1e-12):
                bad.append(f"celltorch {K.__name__} Y={Y.tolist()} then {Y2.tolist()} ref={ref.tolist()}: {g.tolist()} != {w.tolist()}")
    return bad


def job(j):
    if j[0] == "cells":
        return cells(j[1])
    return lemma_prefix() if j == "lemma" else neg(j[1]) if j[0] == "neg" else case(j)


def main():
    names = sys.argv[1:] or list(OPS)
    jobs = [(n, s) for n in names for s in range(3)]
    if not sys.argv[1:]:
        jobs += [("neg", n) for n in NEG] + ["lemma"] + [("cells", k) for k in range(6)]
    with mp.get_context("fork").Pool(6) as p:
        bad = [b for r in p.imap_unordered(job, jobs) for b in r]
    for b in bad:
        print("DISAGREE", b)
    print(f"{len(jobs)} cross-checks, {len(bad)} disagreements")
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
