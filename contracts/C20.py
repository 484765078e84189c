"""C20 runs are reproducible from their seed: the seed alone fixes every random choice, and nothing else restarts or replaces the random numbers."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C20"
SP = "bayes_optim.search_space.search_space."
ASSUME = ["numpy's global generator: every draw is a function of the last seed, of the number of draws since then and of its arguments (ghost state GhostRandom)"]


def _space(v, m, perm, seed, tag=""):
    lb, ub = v.real("lb", lo=-(10**300)), v.real("ub", hi=10**300)
    a, b2, st = v.int("a"), v.int("b"), v.int("step", 1)
    v.assume(v.and_(lb < ub, a < b2))
    vs = [m.Real([lb, ub], "r"), m.Integer([a, b2], "i", step=st), m.Discrete(["x", "y", "z"], "d"), m.Bool("b"), m.Ordinal([2, 5, 9], "o")]
    return m.SearchSpace([vs[p] for p in perm], random_seed=seed)


def _same(v, tag, X, Y, n, cols):
    v.ensure(f"{tag}: shape", v.and_(v.eq(X.shape[0], Y.shape[0]), v.eq(X.shape[1], Y.shape[1])))
    g = v.generic(n)
    for c in range(cols):
        v.ensure(f"{tag}: column {c}", v.eq(v.at(X, g, c), v.at(Y, g, c)))


def _sampling(perm):
    def body(v):
        """two spaces with the same seed yield the same points, draw after draw, and sampling goes on in the sequence"""
        m = v.mod("search_space.search_space")
        n, k, s = v.int("n", 1), v.int("k", 1), v.int("seed", 0)
        rng = v.rng(v.int("before1"))
        A = _space(v, m, perm, s)
        v.ensure("seeded once, with the given seed", len(rng.seeds) == 1 and v.eq(rng.seeds[0], s))
        X1 = A.sample(n)
        p0 = rng.k
        X2 = A.sample(k)
        p1 = rng.k
        v.ensure("sampling does not restart the random numbers", len(rng.seeds) == 1)
        v.ensure("sampling moves on in the sequence", p1 > p0 > 0)
        rng2 = v.rng(v.int("before2"))
        B = _space(v, m, perm, s)
        Y1, Y2 = B.sample(n), B.sample(k)
        _same(v, "first draw", X1, Y1, n, 5)
        _same(v, "second draw", X2, Y2, k, 5)
        v.ensure("the same number of draws", rng2.k == p1)

    return body


for _perm in ([0, 1, 2, 3, 4], [4, 2, 0, 3, 1], [1, 0, 4, 2, 3], [3, 4, 1, 2, 0]):
    proof(P, [SP + "SearchSpace.sample", SP + "SearchSpace._sample", SP + "_DiscreteSpace._sample", SP + "RealSpace._sample", SP + "SearchSpace.__getitem__", SP + "SearchSpace.random_seed"],
          name="sampling_" + "".join(map(str, _perm)), assume=ASSUME, timeout=20000)(_sampling(_perm))


@proof(P, [SP + "SearchSpace.random_seed", SP + "SearchSpace.__getitem__", SP + "SearchSpace.filter"], assume=ASSUME)
def handling_a_space_draws_nothing(v):
    """building an unseeded space, slicing and filtering leave the random numbers alone; slices keep the seed"""
    m = v.mod("search_space.search_space")
    s = v.int("seed", 0)
    rng = v.rng(v.int("before"))
    U = _space(v, m, [0, 1, 2, 3, 4], None)
    v.ensure("an unseeded space does not seed", len(rng.seeds) == 0 and rng.k == 0)
    for sp, want in ((U, None), (_space(v, m, [0, 1, 2, 3, 4], s), s)):
        n0 = len(rng.seeds)
        for nm, part in (("slice", sp[1:3]), ("indices", sp[[2, 0]]), ("names", sp[["i", "d"]]), ("mask", sp[[True, False, True, False, False]]), ("filter", sp.filter(["r", "d"])),
                         ("inverted filter", sp.filter(["r", "d"], invert=True))):
            v.ensure(f"{nm}: no restart", len(rng.seeds) == n0 and rng.k == 0)
            v.ensure(f"{nm}: keeps the seed", part.random_seed is None if want is None else v.eq(part.random_seed, want))


def _setter(path, cls):
    def body(v):
        """every given seed, zero included, is used; no seed leaves the generator alone"""
        m = v.mod(path)
        C = getattr(m, cls)
        s = v.int("seed", 0)
        for how, val in (("given", s), ("zero", 0), ("none", None)):
            rng = v.rng(v.int("before" + how))
            o = object.__new__(C)
            type(o).random_seed.fset(o, val)
            if val is None:
                v.ensure("no seed: the generator is left alone", len(rng.seeds) == 0)
            else:
                v.ensure(f"{how}: seeded once", len(rng.seeds) == 1)
                v.ensure(f"{how}: with the given seed", v.eq(rng.seeds[0], val))
                v.ensure(f"{how}: the seed can be read", v.eq(o.random_seed, val))

    return body


for _p, _c in (("_base", "BaseOptimizer"), ("search_space.search_space", "SearchSpace"), ("acquisition.optim.one_plus_one_cma_es", "OnePlusOne_CMA")):
    proof(P, [f"bayes_optim.{_p}.{_c}.random_seed"], name=f"seed_of_{_c}", assume=ASSUME)(_setter(_p, _c))


# ------------------------------------------------------------------ whole runs of the real package
def _entropy(b):
    """the machinery keeps OS entropy out of the other checks; here it has to come through"""
    np.random.seed = np.random.mtrand._rand.seed


def _scramble(i):
    np.random.mtrand._rand.seed(None if i is None else i)
    random.seed(i)
    np.random.rand(3)


def _value(x, k):
    """an objective without randomness, on points of any type"""
    vals = list(x.values()) if isinstance(x, dict) else list(x)
    t = sum((j + 1) * (float(u) if isinstance(u, (int, float, np.integer, np.floating, bool, np.bool_)) else sum(map(ord, str(u))) % 7) for j, u in enumerate(vals) if u is not None)
    q = [float(np.sin(0.7 * t + j) + 0.1 * t) for j in range(k)]
    return q if k > 1 else q[0]


def _run(cfg):
    """one run as configured; returns everything that was asked, as text"""
    import bayes_optim.search_space as S
    from bayes_optim import BO, MOBO, AnnealingBO, NoisyBO, ParallelBO
    from bayes_optim.bayes_opt import SelfAdaptiveBO
    from bayes_optim.extension import ConditionalBO, MultiAcquisitionBO, PCABO
    from bayes_optim.surrogate import GaussianProcess, RandomForest, trend
    from contracts import gen

    cls = dict(BO=BO, MOBO=MOBO, AnnealingBO=AnnealingBO, NoisyBO=NoisyBO, ParallelBO=ParallelBO, SelfAdaptiveBO=SelfAdaptiveBO, ConditionalBO=ConditionalBO, MultiAcquisitionBO=MultiAcquisitionBO, PCABO=PCABO)[cfg["cls"]]
    k = 2 if cls is MOBO else 1
    opts = dict(max_FEs=30, n_restart=2, wait_iter=2)
    if cfg["optimizer"]:
        opts["optimizer"] = cfg["optimizer"]
    kw = dict(obj_fun=None, max_FEs=100, acquisition_optimization=opts, minimize=cfg["minimize"], random_seed=cfg["seed"], verbose=False)
    if cls is ConditionalBO:
        sp = S.SearchSpace([S.Discrete(["p", "q"], name="sel"), S.Real([0.0, 1.0], name="a", conditions="sel == 'p'"), S.Real([0.0, 1.0], name="c", conditions="sel == 'q'"),
                            S.Integer([0, 9], name="free1"), S.Real([-1.0, 1.0], name="free2"), S.Discrete(["u", "v", "w"], name="free3")])
        kw.update(search_space=sp, n_point=2, eval_type="dict")
    elif cls is PCABO:
        kw.update(search_space=S.RealSpace([[-2.0, 3.0], [0.0, 5.0], [-1.0, 1.0]]), n_components=2, DoE_size=5, eval_type="list")
    else:
        ss = cfg["specs"]
        sp = gen.space(ss, S)
        d = len(ss)
        if cfg["model"] == "gp":
            model = GaussianProcess(mean=trend.constant_trend(d), corr="matern", thetaL=1e-3 * np.ones(d), thetaU=1e3 * np.ones(d), nugget=1e-6, noise_estim=False, optimizer="BFGS", wait_iter=2,
                                    random_start=3, likelihood="concentrated", eval_budget=40)
        elif cfg["model"] == "rf":
            model = RandomForest(levels=sp.levels, n_estimators=5)
        else:
            model = Surrogate(k)
        kw.update(search_space=sp, model=model, eval_type=cfg["et"], DoE_size=cfg["doe"])
        if cls not in (BO, MOBO):
            kw["n_point"] = 2
        if cls is MOBO:
            kw.update(n_obj=2, minimize=[cfg["minimize"], not cfg["minimize"]])
        if cls is BO:
            kw["acquisition_fun"] = cfg["fun"]
    o = cls(**kw)
    out = []
    for t in range(cfg["rounds"]):
        X = o.ask()
        out.append(repr([{q: x[q] for q in sorted(x)} if isinstance(x, dict) else list(x) for x in X]))
        o.tell(X, [_value(x, k) for x in X])
    return out


ALL = ["BO", "ParallelBO", "BO", "MOBO", "AnnealingBO", "ConditionalBO", "NoisyBO", "SelfAdaptiveBO", "MultiAcquisitionBO", "PCABO"]


def _cfg(r, rng, case):
    from contracts import gen

    cls = ALL[case % len(ALL)]
    real = r.random() < 0.4
    ss = gen.specs(rng, kinds=("Real",) if real else ("Real", "Integer", "Discrete"), hi=3) + [dict(gen.spec_real(rng, scale="linear", precision=None), name="cont")]
    model = r.choice(["gp", "gp", "rf", "standin"]) if real and cls not in ("MOBO",) and all(s["scale"] == "linear" for s in ss) else r.choice(["rf", "standin"] if cls != "MOBO" else ["standin"])
    opt = r.choice([None, "MIES"] + (["OnePlusOne_Cholesky_CMA"] if real else []) + (["BFGS"] if model == "gp" else [])) if cls != "MOBO" else None
    return dict(cls=cls, specs=ss, model=model, optimizer=opt, minimize=r.random() < 0.5, seed=r.choice([0, 1, 42, r.randrange(2**31)]), et=r.choice(["list", "dict"]), doe=r.randint(3, 5), fun=r.choice(["EI", "UCB", "PI", "MGFI"]),
                rounds=r.choice([2, 2, 3]))


@bounded(P, ["bayes_optim._base.BaseOptimizer.random_seed", "bayes_optim.base.BaseBO.ask", "bayes_optim.base.BaseBO.tell", "bayes_optim.base.BaseBO.create_DoE", "bayes_optim.acquisition.optim.argmax_restart",
             "bayes_optim.acquisition.optim.mies.MIES", "bayes_optim.acquisition.optim.one_plus_one_cma_es.OnePlusOne_Cholesky_CMA", "bayes_optim.surrogate.gaussian_process.gpr.GaussianProcess.fit",
             "bayes_optim.surrogate.random_forest.RandomForest.fit"], n=90, n_thorough=2000, budget=110,
         bound="random configurations of all optimizer classes (mixed spaces, three surrogates, all inner optimizers), 2-3 rounds, each run twice with different random numbers before")
def seeded_runs(b):
    r = b.py
    for case in b.loop():
        cfg = _cfg(r, b.rng, case)
        _entropy(b)
        res = []
        for i in (r.randrange(10**6), r.randrange(10**6), None):
            _scramble(i)
            try:
                res.append(_run(cfg))
            except Exception as e:
                res.append([f"{type(e).__name__}: {str(e)[:200]}"])
            if i is not None and len(res) == 2 and r.random() < 0.6:
                break
        b.check(all(x == res[0] for x in res), "two runs with the same seed propose different points", cfg=cfg, first=[x for x in res if x != res[0]][:1], second=res[0])
        if case % 3 == 0:
            other = dict(cfg, seed=cfg["seed"] + 1, rounds=1)
            try:
                q = _run(other)
            except Exception:
                continue
            b.check(q[0] != res[0][0], "runs with different seeds start with the same points", cfg=cfg, points=q[0])


@bounded(P, [SP + "SearchSpace.random_seed", SP + "SearchSpace.sample", SP + "SearchSpace.__getitem__", SP + "SearchSpace.filter"], n=600, n_thorough=8000, budget=40,
         bound="random mixed spaces of 2-6 variables, 2-5 draws of 1-20 points, all sampling methods, slicing, filtering and building other spaces in between")
def seeded_spaces(b):
    import bayes_optim.search_space as S
    from contracts import gen

    r = b.py
    for case in b.loop():
        ss = gen.specs(b.rng, hi=5) + [dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont")]
        seed = r.choice([0, 1, 7, r.randrange(2**31)])
        plan = [(r.randint(1, 20), r.choice(["uniform", "uniform", "LHS"])) for _ in range(r.randint(2, 5))]
        _entropy(b)
        res = []
        for rep in range(2):
            _scramble(r.randrange(10**6))
            vs = [gen.build(s, S) for s in ss]
            sp = S.SearchSpace(vs, random_seed=seed)
            b.check(sp.random_seed == seed, "the seed cannot be read", seed=seed)
            out = []
            for n, method in plan:
                if rep == 1:  # none of these may touch the random numbers
                    names = [s["name"] for s in ss]
                    sp[:2], sp[[0]], sp[names[:1]], sp.filter(names[:2]), sp.bounds, sp.levels, repr(sp), sp == sp[:1]
                    gen.space(ss, S)
                    sp.round(np.array(X, dtype=object)) if out else None
                X = sp.sample(n, method)
                out.append(repr(X.tolist()))
                if rep == 0 and n > 1:
                    c = [x[-1] for x in X]
                    b.check(len(set(c)) == n, "a sample repeats a continuous value", values=c, specs=ss)
            res.append(out)
        b.check(res[0] == res[1], "two spaces with the same seed yield different points", specs=ss, seed=seed, plan=plan, first=res[0], second=res[1])
        b.check(len(set(res[0])) == len(res[0]), "sampling a seeded space again yields the same points", specs=ss, seed=seed, plan=plan)


@bounded(P, ["bayes_optim.base.BaseBO.ask", "bayes_optim.extension.ConditionalBO.ask", SP + "SearchSpace.get_unconditional_subspace"], n=1, n_thorough=6, budget=100, bound="10 configurations (30 thorough), each run in three processes with different string hashing")
def seeded_runs_in_other_processes(b):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for case in b.loop():
        ps = []
        for h in ("0", "1", "random"):
            env = dict(os.environ, PYTHONHASHSEED=h)
            ps.append(subprocess.Popen([sys.executable, "-W", "ignore", "-m", "contracts.C20", str(b.seed * 1000 + case)], cwd=here, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        outs = []
        for p in ps:
            o, e = p.communicate(timeout=240)
            if p.returncode != 0 or not o.strip():
                raise RuntimeError("the run in another process failed: " + e[-500:])
            outs.append(json.loads(o.strip().splitlines()[-1]))
        for j, c in enumerate(outs[0]):
            for q in outs[1:]:
                b.check(q[j] == c, "a run with the same seed in another process proposes different points", cfg=c["cfg"], first=c["out"], second=q[j]["out"])


def _main(seed):
    sys.path.insert(0, os.environ.get("PYVC_REPO", "/repo"))
    r, rng, res = random.Random(seed), np.random.RandomState(seed), []
    for case in range(10):
        cfg = _cfg(r, rng, case)
        if cfg["model"] == "standin" and cfg["cls"] != "MOBO" and any(s["type"] not in ("Real", "Integer") for s in cfg["specs"]):
            cfg["model"] = "rf"  # the stand-in hashes texts
        if cfg["cls"] == "MOBO":
            cfg["specs"] = [s for s in cfg["specs"] if s["type"] in ("Real", "Integer")]
        try:
            out = _run(cfg)
        except Exception as e:
            out = [f"{type(e).__name__}: {str(e)[:200]}"]
        res.append(dict(cfg=repr(cfg), out=out))
    print(json.dumps(res))


if __name__ == "__main__":
    _main(int(sys.argv[1]))
