"""C13 saving and loading an optimizer."""
import os
import shutil
import tempfile

import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C13"
BO_ = "bayes_optim.base.BaseBO."


class Boom(OSError):
    pass


def _world(v, m):
    """contracts of the file system and of dill: any of the calls may fail; loads(dumps(x)) gives x back"""
    w = type("W", (), {})()
    w.files, w.store = {}, {}

    def may_fail(what):
        if v.bool(v.c.name("fails_" + what)):
            raise Boom(what)

    class Token(bytes):
        pass

    class Dill:
        @staticmethod
        def dumps(x):
            may_fail("dumps")
            t = Token(f"t{len(w.store)}", "ascii")
            w.store[bytes(t)] = x
            return t

        @staticmethod
        def loads(t):
            return w.store[bytes(t)]

        @staticmethod
        def dump(x, f):
            w.files[f.name] = "partial"
            may_fail("dump")
            w.files[f.name] = (type(x), dict(x.__dict__))

        @staticmethod
        def load(f):
            cls, d = w.files[f.name]
            o = cls.__new__(cls)
            o.__dict__.update(d)
            return o

    class File:
        def __init__(self, name, mode):
            self.name, self.mode, self.open = name, mode, True
            w.handles.append(self)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.open = False
            return False

        def close(self):
            self.open = False

    w.handles = []

    def open_(name, mode="r"):
        if "w" in mode:
            may_fail("open")
        elif name not in w.files:
            raise FileNotFoundError(name)
        return File(name, mode)

    class Os:
        path = os.path

        @staticmethod
        def makedirs(d, exist_ok=False):
            w.made = d

    v.stub(m, "dill", Dill)
    v.stub(m, "open", open_)
    v.stub(m, "os", Os)

    def dump_logger(lg):
        may_fail("logger")
        return ("dumped", lg)

    v.stub(m, "dump_logger", dump_logger)
    v.stub(m, "load_logger", lambda t: t[1])
    return w


def _roundtrip(has_data, dirname):
    def body(v):
        m = v.mod("base")
        h, g = (lambda x: 0), (lambda x: 0)
        v.stub(m.BaseBO, "search_space", property(lambda self: self._search_space))
        names = ["p", "q"]

        class Sp:
            var_name = names

        o = optimizer(v, m.BaseBO, names, h=h, g=g, _search_space=Sp(), marker=v.real("marker"))
        wrapped = []
        v.stub(m, "func_with_list_arg", lambda f, et, nm: wrapped.append((f, et, nm)) or ("wrapped", f, et, tuple(nm)))
        if has_data:
            s, D = solutions(v, "d", v.int("n", 1), names)
            o.data = s
        w = _world(v, m)
        before = dict(o.__dict__)
        name = "folder/file" if dirname else "file"
        ok = True
        try:
            o.save(name)
        except Boom:
            ok = False
        v.ensure("saving leaves every attribute of the optimizer as it was", set(o.__dict__) == set(before) and all(o.__dict__[k] is before[k] for k in before))
        if has_data:
            g_ = v.generic(v.len(o.data), "g")
            v.ensure("the recorded values are unchanged", v.and_(v.eq(v.at(o.data.fitness, g_), v.at(D["F"], g_)), *[v.eq(v.at(o.data, g_, k), v.at(D["X"], g_, k)) for k in range(2)]))
        v.ensure("no file is left open", all(not f.open for f in w.handles))
        if not ok:
            return
        if dirname:
            v.ensure("the folder is created", getattr(w, "made", None) == "folder")
        p = m.BaseBO.load(name)
        v.ensure("loading gives another optimizer of the same class", p is not o and type(p) is type(o))
        same = [k for k in before if k not in ("_h", "_g", "logger")]
        v.ensure("every attribute is restored", set(p.__dict__) == set(before) and all(p.__dict__[k] is before[k] for k in same))
        v.ensure("the logger is restored", p.logger is before["logger"])
        v.ensure("the constraints take points as before", p._h in (before["_h"], ("wrapped", h, "list", tuple(names))) and p._g in (before["_g"], ("wrapped", g, "list", tuple(names))))

    return body


for has in (True, False):
    for d in (True, False):
        proof(P, [BO_ + "save", BO_ + "load"], name=f"save_and_load_{'data' if has else 'no_data'}_{'folder' if d else 'file'}",
              assume=["dill.loads(dill.dumps(x)) and dill.load after dill.dump give x back (checked at run time below); open, dumps, dump and dump_logger may fail at any call"])(_roundtrip(has, d))


# ------------------------------------------------------------------ run-time contracts
def _describe(sp):
    return [(type(x).__name__, x.name, str(x.bounds), getattr(x, "precision", None), getattr(x, "scale", None), getattr(x, "step", None), getattr(x, "default_value", None), str(getattr(x, "conditions", None) and x.conditions["string"] if isinstance(getattr(x, "conditions", None), dict) else getattr(x, "conditions", None))) for x in sp.data]


def _sol(s):
    if s is None:
        return None
    return (np.asarray(s).tolist(), np.asarray(s.fitness).tolist(), np.asarray(s.n_eval).tolist(), [str(i) for i in np.ravel(s.index)], list(s.var_name), s.n_obj)


PLAIN = ["iter_count", "eval_count", "minimize", "ftarget", "max_FEs", "n_point", "DoE_size", "_eval_type", "_acquisition_fun", "AQ_max_FEs", "AQ_n_restart", "AQ_wait_iter", "_optimizer", "instance_id", "random_seed", "verbose",
         "data_file", "n_job", "n_obj", "stop_dict", "var_names", "dim", "_bo_idx", "_fixed_vars", "fmin", "fmax"]


def _norm(x):
    if isinstance(x, dict):
        return {k: _norm(y) for k, y in x.items()}
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_norm(y) for y in x]
    return x


def state(o, Q=None):
    out = {k: _norm(getattr(o, k)) for k in PLAIN if hasattr(o, k)}
    out["class"] = type(o).__name__
    out["data"] = _sol(getattr(o, "data", None))
    out["hist"] = [np.asarray(h).tolist() for h in o.hist_f]
    out["warm"] = _sol(o.warm_data)
    out["xopt"] = _sol(o.xopt)
    out["space"] = _describe(o._search_space)
    out["par"] = {k: _norm(x) for k, x in o._acquisition_par.items() if not callable(x)}
    out["logger"] = getattr(o.logger, "name", None)
    out["constraints"] = (o.h is None, o.g is None, o._h is None, o._g is None)
    if hasattr(o, "_bo"):
        out["sub"] = [state(q) for q in o._bo]
    if getattr(o, "model", None) is not None and getattr(o.model, "is_fitted", False) and Q is not None:
        m, s = o.model.predict(Q, eval_MSE=True)
        out["model"] = (np.asarray(m).tolist(), np.asarray(s).tolist())
    return out


def _diff(a, c):
    return {k: (a.get(k), c.get(k)) for k in set(a) | set(c) if repr(a.get(k)) != repr(c.get(k))}


class _Full:
    """a file that accepts only so many bytes"""

    def __init__(self, f, room):
        self.f, self.room = f, room

    def write(self, b):
        self.room -= len(b)
        if self.room < 0:
            raise OSError(28, "No space left on device")
        return self.f.write(b)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()
        return False

    def __getattr__(self, n):
        return getattr(self.f, n)


@bounded(P, [BO_ + "save", BO_ + "load", "bayes_optim.utils.logger.dump_logger", "bayes_optim.utils.logger.load_logger"], n=90, n_thorough=1500, budget=120,
         bound="all optimizer classes on random spaces, saved at the start, after the first batch and later, with warm data, constraints, list and dictionary points, forests, Gaussian processes and a stand-in model; failing saves: full disk after 0-20000 bytes, objective that cannot be pickled, unusable logger, target that is a directory")
def save_load_continue(b):
    import logging
    import random

    import bayes_optim.base as base
    import bayes_optim.search_space as S
    from bayes_optim import BO, MOBO, AnnealingBO, NoisyBO, ParallelBO
    from bayes_optim.bayes_opt import SelfAdaptiveBO
    from bayes_optim.extension import ConditionalBO, MultiAcquisitionBO, PCABO
    from bayes_optim.surrogate import RandomForest
    from contracts import gen

    r = b.py
    tmp = tempfile.mkdtemp(prefix="c13_")
    cwd = os.getcwd()
    try:
        for case in b.loop():
            cls = [BO, ParallelBO, MOBO, BO, AnnealingBO, ConditionalBO, NoisyBO, SelfAdaptiveBO, MultiAcquisitionBO, PCABO, BO][case % 11]
            et, mini, k = r.choice(["list", "dict"]), r.random() < 0.5, 1
            opts = dict(AQ)
            ss = None
            kw = dict(obj_fun=None, max_FEs=100, acquisition_optimization=opts, minimize=mini, ftarget=r.choice([None, -50.0 if mini else 50.0]), instance_id=f"{os.path.basename(tmp)}_{case}")
            if cls is ConditionalBO:
                sp = S.SearchSpace([S.Discrete(["p", "q"], name="sel"), S.Real([0.0, 1.0], name="a", conditions="sel == 'p'"), S.Real([0.0, 1.0], name="c", conditions="sel == 'q'")])
                kw.update(search_space=sp, n_point=2, eval_type="dict")
                et = "dict"
            elif cls is PCABO:
                sp = S.RealSpace([[-2.0, 3.0], [0.0, 5.0], [-1.0, 1.0]])
                kw.update(search_space=sp, n_components=2, DoE_size=5, eval_type="list")
                et = "list"
            else:
                ss = gen.specs(b.rng, kinds=("Real", "Integer", "Discrete"), hi=4) + [dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont")]
                sp = gen.space(ss, S)
                model = RandomForest(levels=sp.levels, n_estimators=5) if r.random() < 0.6 else Surrogate(2 if cls is MOBO else 1)
                kw.update(search_space=sp, model=model, eval_type=et, DoE_size=r.randint(4, 6))
                if cls not in (BO, MOBO):
                    kw["n_point"] = 2
                if cls is MOBO:
                    k = 2
                    kw.update(n_obj=2, minimize=[mini, not mini])
                if cls is BO:
                    kw["acquisition_fun"] = r.choice(["EI", "UCB", "PI", "MGFI"])
                if cls is BO and r.random() < 0.4:
                    cut = ss[-1]["bounds"][0] + 0.8 * (ss[-1]["bounds"][1] - ss[-1]["bounds"][0])
                    kw["ineq_fun"] = (lambda x, cut=cut: x["cont"] - cut) if et == "dict" else (lambda x, cut=cut: x[-1] - cut)
                if cls in (BO, ParallelBO) and r.random() < 0.3 and all(isinstance(x, str) for q in ss if q["type"] not in ("Real", "Integer") for x in q["bounds"]):
                    X0 = [[(float(x) if s["type"] == "Real" else int(x) if s["type"] == "Integer" else str(x)) for x, s in zip(row, ss)] for row in sp.sample(4).tolist()]
                    kw["warm_data"] = ([dict(zip(sp.var_name, row)) for row in X0] if et == "dict" else X0, [r.uniform(-3, 3) for _ in X0])
            folder = f"{tmp}/{case}"
            if r.random() < 0.3:
                kw["log_file"] = f"{tmp}/log{case}"
            o = cls(**kw)
            val = lambda X: [[round(r.uniform(-3, 3), 3) for _ in range(k)] if k > 1 else round(r.uniform(-3, 3), 3) for _ in X]
            asked = None
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                X = o.ask()
                o.tell(X, val(X))
            if r.random() < 0.3:
                asked = o.ask()  # saved between ask and tell
            Q = np.array(sp.sample(3).tolist(), dtype=object) if cls is not ConditionalBO and cls is not PCABO else None
            st = state(o, Q)
            info = dict(cls=cls.__name__, et=et, iters=o.iter_count, pending=asked is not None, space=str(ss))
            data0 = getattr(o, "data", None)
            # saves that fail
            how = r.choice(["disk", "disk", "pickle", "logger", "directory", "none"])
            fn = f"{folder}/opt"
            failed = None
            real_logger, real_obj = o.logger, o.obj_fun
            try:
                if how == "disk":
                    room = r.choice([0, 10, 1000, 20000])
                    base.open = lambda f, mode="r", *a, **kw_: _Full(open(f, mode, *a, **kw_), room) if "w" in mode else open(f, mode, *a, **kw_)
                elif how == "pickle":
                    o.obj_fun = (i for i in range(3))
                elif how == "logger":
                    o.logger = logging.LoggerAdapter(real_logger, {})
                elif how == "directory":
                    os.makedirs(fn)
                if how != "none":
                    o.save(fn)
            except Exception as e:
                failed = e
            finally:
                base.__dict__.pop("open", None)
            if how == "directory" and os.path.isdir(fn):
                os.rmdir(fn)
            b.check(how != "logger" or type(o.logger) is logging.LoggerAdapter, "a failed save replaced the logger", how=how, **info)
            o.logger, o.obj_fun = real_logger, real_obj
            b.check(failed is not None or how in ("disk", "none", "logger"), "a save that cannot succeed reported no failure", how=how, **info)
            now = state(o, Q)
            b.check(now == st or not _diff(st, now), "a failed save changed the optimizer", how=how, error=repr(failed), diff=_diff(st, now), **info)
            # save and load
            if r.random() < 0.2:
                os.makedirs(folder, exist_ok=True)
                os.chdir(folder)
                fn = "opt"
            o.save(fn)
            now = state(o, Q)
            b.check(not _diff(st, now), "saving changed the running optimizer", diff=_diff(st, now), **info)
            p = cls.load(fn)
            os.chdir(cwd)
            got = state(p, Q)
            b.check(not _diff(st, got), "the loaded optimizer differs", diff=_diff(st, got), **info)
            if kw.get("log_file"):
                b.check([h.baseFilename for h in p.logger.handlers if hasattr(h, "baseFilename")] == [kw["log_file"]], "log file of the loaded optimizer", got=str(p.logger.handlers), want=kw["log_file"], **info)
            # both continue alike
            for step in range(2):
                seed = r.randrange(10**6)
                out = []
                for q in (o, p):
                    np.random.seed(seed)
                    random.seed(seed)
                    try:
                        X = asked if asked is not None else q.ask()
                    except Exception as e:
                        if type(e).__name__ not in ("AskEmptyError", "FlatFitnessError"):
                            raise
                        X = type(e).__name__
                    out.append(X)
                asked = None
                b.check(repr(_norm(out[0])) == repr(_norm(out[1])), "the loaded optimizer proposes other points", got=out[1], want=out[0], step=step, **info)
                if isinstance(out[0], str):
                    break
                if "ineq_fun" in kw and step == 0 and not isinstance(out[0], str):
                    g = [kw["ineq_fun"](x) for x in out[1]]
                    b.check(max(g) <= 1e-12 or info["pending"], "the loaded optimizer ignores the constraint", got=out[1], g=g, **info)
                y = val(out[0])
                flat = 0
                for q, X in zip((o, p), out):
                    np.random.seed(seed + 1)
                    random.seed(seed + 1)
                    try:
                        q.tell(X, y)
                    except Exception as e:
                        if type(e).__name__ != "FlatFitnessError":
                            raise
                        flat += 1
                if flat:
                    break
                s1, s2 = state(o, Q), state(p, Q)
                b.check(not _diff(s1, s2), "the loaded optimizer records evaluations differently", diff=_diff(s1, s2), step=step, **info)
            if data0 is not None:
                b.check(_sol(data0) == st["data"], "continuing the loaded optimizer changed the data of the saved one", **info)
            shutil.rmtree(folder, ignore_errors=True)
            for h in list(o.logger.handlers):
                h.close()
                o.logger.removeHandler(h)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
