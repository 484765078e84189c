"""Contracts, proofs, bounded runtime checks and their execution."""
import json
import os
import random
import signal
import sys
import time
import traceback

import numpy as _np

from . import core, loader, runtime, symnp
from .core import (
    BOOL, INT, REAL, U, Val, Ctx, Obligation, PathDone, Sym, SymBool, SymNum, SymObj, SymVal, Unsupported, ctx, lift, wrap, z3,
)
from .symnp import I, L, SymArray, SymSeq, generic, in_range, is_symarray

PROOFS, BOUNDED = [], []
KNOWN = {}


class Proof:
    kind = "proof"

    def __init__(self, prop, name, fn, targets, replay=None, timeout=10000, allow_exc=(), thorough=False, loops=None, assume=(), decide_ms=1500):
        self.decide_ms = decide_ms
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.replay, self.timeout, self.allow_exc, self.thorough = replay, timeout, allow_exc, thorough
        self.loops = {} if loops is None else loops
        self.assumptions = list(assume)


class Bounded:
    kind = "bounded"

    def __init__(self, prop, name, fn, targets, n=200, n_thorough=None, bound="", budget=60):
        self.prop, self.name, self.fn, self.targets = prop, name, fn, targets
        self.n, self.n_thorough, self.bound, self.budget = n, n_thorough or 10 * n, bound, budget


def proof(prop, targets, name=None, **kw):
    def deco(fn):
        PROOFS.append(Proof(prop, name or fn.__name__, fn, [targets] if isinstance(targets, str) else list(targets), **kw))
        return fn

    return deco


def bounded(prop, targets, name=None, **kw):
    def deco(fn):
        BOUNDED.append(Bounded(prop, name or fn.__name__, fn, [targets] if isinstance(targets, str) else list(targets), **kw))
        return fn

    return deco


class V:
    """environment of one symbolic path of a contract proof"""

    def __init__(self, c, pr):
        self.c, self.pr = c, pr
        self._stubs = []

    # -- modules / symbols
    def mod(self, name=""):
        return loader.load(name)

    def int(self, name, lo=None, hi=None):
        e = z3.Int(name)
        self.c.inputs[name] = ("int", e)
        if lo is not None:
            self.c.assume(e >= I(lo))
        if hi is not None:
            self.c.assume(e <= I(hi))
        return SymNum(e)

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        e = z3.Real(name)
        self.c.inputs[name] = ("real", e)
        for b, op in ((lo, "__ge__"), (hi, "__le__"), (gt, "__gt__"), (lt, "__lt__")):
            if b is not None:
                self.c.assume(getattr(e, op)(core.to_real(lift(b))))
        self.c.assume(core.IsFin(e))
        self.c.assume(z3.Not(core.IsNan(e)))
        return SymNum(e)

    def xreal(self, name):
        """extended real: may be +-inf / nan (no arithmetic is interpreted on those)"""
        e = z3.Real(name)
        self.c.inputs[name] = ("real", e)
        return SymNum(e)

    def bool(self, name):
        e = z3.Bool(name)
        self.c.inputs[name] = ("bool", e)
        return SymBool(e)

    def str(self, name):
        return SymObj(z3.Const(name, U))

    def _sort(self, kind):
        return {"f": REAL, "i": INT, "b": BOOL, "O": Val, "U": U}[kind]

    def fun(self, name, *sorts):
        return z3.Function(name, *sorts)

    def array(self, name, shape, kind="f", finite=True):
        shape = shape if isinstance(shape, tuple) else (shape,)
        F = z3.Function(name, *([INT] * len(shape)), self._sort(kind))
        self.c.inputs[name] = ("array", F, shape, kind)
        if kind == "f" and finite:
            ks = [z3.Int(f"{name}_k{i}") for i in range(len(shape))]
            self.c.assume(z3.ForAll(ks, z3.And(core.IsFin(F(*ks)), z3.Not(core.IsNan(F(*ks)))), patterns=[F(*ks)]))
        return SymArray._make(shape, lambda *ix: F(*ix), kind)

    def seq(self, name, n, kind="f"):
        F = z3.Function(name, INT, self._sort(kind))
        self.c.inputs[name] = ("array", F, (n,), kind)
        return SymSeq(n, lambda i: wrap(F(i)))

    def refs(self, base, n, cls, **attrs):
        """n opaque objects of class cls; attrs: attribute -> function of the reference"""
        F = z3.Function(base, INT, core.Ref)
        self.c.__dict__["ref_cls"] = cls
        self.c.__dict__.setdefault("ref_attrs", {}).update(attrs)
        return SymSeq(n, lambda i: core.SymRef(F(i))), F

    # -- logic
    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise PathDone()
            return
        self.c.assume(lift(cond) if not isinstance(cond, z3.ExprRef) else cond)

    def ensure(self, name, cond):
        if isinstance(cond, (bool, _np.bool_)):
            cond = z3.BoolVal(bool(cond))
        self.c.oblige(f"{self.pr.prop}/{self.pr.name}:{name}", lift(cond) if not isinstance(cond, z3.ExprRef) else cond)

    def lemma(self, name, cond):
        """an obligation that the later ones may use"""
        self.ensure("lemma: " + name, cond)
        self.assume(cond)

    def fact(self, name, fn, *args):
        """a closed lemma over the reals, proved without any hypothesis; used at the given arguments"""
        xs = [z3.Real(f"fact!{i}") for i in range(len(args))]
        self.c.oblige(f"{self.pr.prop}/{self.pr.name}:fact: {name}", z3.ForAll(xs, lift(fn(*[wrap(x) for x in xs]))))
        self.assume(fn(*args))

    def forall(self, n, fn):
        """for all 0<=k<n: fn(k)"""
        k, t = generic(lambda i: fn(i), n)
        if t is None:
            return SymBool(z3.BoolVal(True))
        return SymBool(z3.ForAll([k], z3.Implies(in_range(k, n), core.to_bool(lift(t)))))

    def generic(self, n, base="g"):
        """a fresh index 0<=k<n (use for 'for every k' postconditions)"""
        k = z3.Int(self.c.name(base))
        self.c.assume(in_range(k, n))
        self.c.__dict__.setdefault("_generics", []).append(k)
        return SymNum(k)

    def implies(self, a, b):
        return SymBool(z3.Implies(core.to_bool(lift(a)), core.to_bool(lift(b))))

    def and_(self, *a):
        return SymBool(z3.And(*[core.to_bool(lift(x)) for x in a]))

    def or_(self, *a):
        return SymBool(z3.Or(*[core.to_bool(lift(x)) for x in a]))

    def not_(self, a):
        return SymBool(z3.Not(core.to_bool(lift(a))))

    def eq(self, a, b):
        return SymBool(core.eq(lift(a), lift(b)))

    def at(self, a, *ix):
        """element of an array without bounds check"""
        if isinstance(a, SymSeq):
            r = a.at(I(ix[0]) if not isinstance(ix[0], SymNum) else ix[0].e)
            return r if len(ix) == 1 else self.at(r, *ix[1:])
        if isinstance(a, (list, tuple)):
            return self.at(symnp.to_seq(a), *ix)
        return wrap(symnp.to_symarray(a)._at(*ix))

    def len(self, x):
        return runtime.len2(x)

    def raises(self, exc, fn):
        """fn() must raise exc"""
        try:
            fn()
        except exc:
            return True
        return False

    # -- stubs: callee contracts
    def stub(self, obj, attr, val):
        old = obj.__dict__.get(attr, _MISSING) if isinstance(obj, type) else getattr(obj, attr, _MISSING)
        setattr(obj, attr, val)
        self._stubs.append((obj, attr, old))

    def _restore(self):
        for obj, attr, old in reversed(self._stubs):
            if old is _MISSING:
                delattr(obj, attr)
            else:
                setattr(obj, attr, old)
        self._stubs = []

    def over(self):
        self.c.over_approx = True

    def split(self, on=True):
        """masks of known length are settled entry by entry (one path for every outcome)"""
        self.c.split_masks = on

    def rng(self, stream):
        """ghost random state: from here on the draws are functions of the seed and of the position since it"""
        self.c.rng = symnp.GhostRandom(lift(stream))
        return self.c.rng


_MISSING = object()


class Timeout(BaseException):
    pass


def _alarm(sec):
    def h(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, h)
    signal.alarm(int(sec))


def run_proof(pr, wall=180):
    t0 = time.time()
    res = {"name": pr.name, "prop": pr.prop, "kind": "proof", "targets": pr.targets, "obligations": [], "status": None, "paths": 0}
    res["assumptions"] = pr.assumptions
    c = Ctx(timeout_ms=pr.timeout)
    c.loop_contracts = pr.loops
    c.decide_ms = pr.decide_ms
    oks = []

    def body():
        v = V(c, pr)
        c.rng = None
        try:
            pr.fn(v)
        finally:
            v._restore()

    def on_path(journal):
        return list(c.pc)

    try:
        _alarm(wall)
        outs = core.run_with(c, lambda: c.explore(body, on_path=on_path))
        res["paths"] = len(outs)
        for i, (decs, r, pc) in enumerate(outs):
            if r[0] == "exc":
                if pr.allow_exc and isinstance(r[1], tuple(pr.allow_exc)):
                    continue
                if isinstance(r[1], (AttributeError, NameError, TypeError, ImportError, NotImplementedError, z3.Z3Exception)):
                    # the harness no longer fits the code's interface (or the shim lacks something):
                    # not a refutation; such errors of the real code are the bounded contracts' job
                    raise Unsupported(f"{type(r[1]).__name__}: {str(r[1])[:200]}") from r[1]
                ob = Obligation(f"{pr.prop}/{pr.name}:no-exception[{type(r[1]).__name__}: {str(r[1])[:80]}]", pc, z3.BoolVal(False))
                if os.environ.get("PYVC_DEBUG"):
                    traceback.print_exception(r[1])
                c.obligations.append(ob)
            elif r[0] == "ok":
                oks.append(pc)
        failed = None
        unknown = None
        seen = {}
        for ob in c.obligations:
            core.discharge(ob, pr.timeout, sizes=[d[1] for d in c.inputs.values() if d[0] == 'int'])
            res["obligations"].append(
                {"name": ob.name, "status": ob.status, "time": round(ob.time, 3), "backend": ob.backend}
            )
            if ob.status == "failed" and failed is None:
                failed = ob
            if ob.status == "unknown" and unknown is None:
                unknown = ob
        # vacuity: the precondition is satisfiable on some completed path
        vac = "unsat"
        for pc in oks:
            s = z3.Solver()
            s.set("timeout", 2000)
            s.add(*pc)
            r = s.check()
            if r == z3.unknown:
                for e in [d[1] for d in c.inputs.values() if d[0] == "int"]:
                    s.add(e <= 2)
                r = s.check()
                r = z3.unknown if r == z3.unsat else r
            if r != z3.unsat:
                vac = str(r)
                break
        res["vacuity"] = vac
        if not c.obligations:
            res["status"] = "error"
            res["detail"] = "no obligations generated"
        elif failed is not None:
            res["status"] = "failed"
            res["failed_obligation"] = failed.name
            res["verifier_output"] = str(failed.model)[:3000] if failed.model is not None else "sat"
            res["over_approx"] = c.over_approx
            try:
                res["model"] = extract(c, failed.model)
            except Exception as e:  # model extraction is best effort
                res["model_error"] = repr(e)
        elif unknown is not None:
            res["status"] = "unknown"
            res["failed_obligation"] = unknown.name
        elif vac == "unsat":
            res["status"] = "failed"
            res["failed_obligation"] = f"{pr.prop}/{pr.name}:reachability (every path raises or is infeasible)"
        else:
            res["status"] = "proved"
    except Unsupported as e:
        res["status"] = "unsupported"
        res["detail"] = str(e)
        res["trace"] = traceback.format_exc()[-1500:]
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    except Timeout:
        res["status"] = "timeout"
    except z3.Z3Exception as e:
        res["status"] = "unsupported"
        res["detail"] = "z3: " + str(e)
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    except Exception as e:
        res["status"] = "error"
        res["detail"] = repr(e)
        res["trace"] = traceback.format_exc()[-3000:]
    finally:
        signal.alarm(0)
    res["wall"] = round(time.time() - t0, 2)
    res["solver_s"] = round(c.stats["solver_s"] + sum(o["time"] for o in res["obligations"]), 2)
    return res


def _num(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return str(v)


def extract(c, m):
    if m is None:
        return None
    out = {}
    for nm, d in c.inputs.items():
        if d[0] in ("int", "real", "bool"):
            out[nm] = _num(m, d[1])
        elif d[0] == "array":
            _, F, shape, kind = d
            dims = [s if isinstance(s, int) else _num(m, s.e) for s in shape]
            if any(not isinstance(x, int) or x > 12 for x in dims):
                continue
            if len(dims) == 1:
                out[nm] = [_num(m, F(i)) for i in range(dims[0])]
            elif len(dims) == 2:
                out[nm] = [[_num(m, F(i, j)) for j in range(dims[1])] for i in range(dims[0])]
    return out


# ---------------------------------------------------------------- bounded runtime contracts
class Fail(Exception):
    def __init__(self, what, **inputs):
        super().__init__(what)
        self.what, self.inputs = what, inputs


class B:
    """environment of a bounded runtime-contract check against the real package"""

    def __init__(self, bd, seed, n, budget):
        self.bd, self.seed, self.n = bd, seed, n
        self.rng = _np.random.RandomState(seed)
        self.py = random.Random(seed)
        self.cases = 0
        self.known = {}
        self.deadline = time.time() + budget

    def loop(self, n=None):
        """case counter; reseeds numpy's global generator for each case"""
        n = self.n if n is None else n
        for i in range(n):
            if time.time() > self.deadline:
                return
            self.cases += 1
            self.cur = i
            _np.random.seed((self.seed * 100003 + i) % (2**32))
            random.seed(self.seed * 100003 + i)
            yield i

    def check(self, cond, what, key=None, **inputs):
        if not cond:
            if key is not None and key in KNOWN:
                self.known[key] = KNOWN[key]
                return
            raise Fail(what, **inputs)


def run_bounded(bd, seed, thorough, wall=240):
    t0 = time.time()
    res = {"name": bd.name, "prop": bd.prop, "kind": "bounded", "targets": bd.targets, "bound": bd.bound}
    b = B(bd, seed, bd.n_thorough if thorough else bd.n, bd.budget * (8 if thorough else 1))
    import warnings

    _seed = _np.random.seed
    # SearchSpace(random_seed=None) reseeds the global generator from OS entropy: keep runs repeatable
    _np.random.seed = lambda s=None: None if s is None else _seed(s)
    try:
        _alarm(bd.budget * (10 if thorough else 3))
        warnings.simplefilter("ignore")
        bd.fn(b)
        res["status"] = "held"
    except Fail as e:
        res["status"] = "violated"
        res["what"] = e.what
        res["inputs"] = {k: repr(v)[:2000] for k, v in e.inputs.items()}
        res["case"] = getattr(b, "cur", None)
        res["seed"] = seed
    except Timeout:
        res["status"] = "held"
        res["note"] = "time budget used up"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        res["status"] = "violated"
        res["what"] = f"unexpected exception {type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-3000:]
        res["case"] = getattr(b, "cur", None)
        res["seed"] = seed
        if not any("bayes_optim" in f.filename for f in tb):
            res["status"] = "error"
    finally:
        signal.alarm(0)
    res["cases"] = b.cases
    res["known"] = b.known
    res["wall"] = round(time.time() - t0, 2)
    return res
