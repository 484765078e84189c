"""C08 acquisition functions: value equals its definition, gradient is the derivative of the value, direction duality."""
import numpy as np

from pyvc.verify import *
from pyvc.core import has_quant

P = "C08"
A = "bayes_optim.acquisition.acquisition_fun."
MATH = ("Phi, phi, exp, sqrt are uninterpreted except for: positivity, monotonicity, sqrt(x)^2 = x, and the derivative rules Phi' = phi, exp' = exp "
        "(monotonicity in the mean from a derivative of constant sign is the mean value theorem)")


def diff(e, d):
    """forward-mode derivative of the returned term itself; d: leaf -> derivative"""
    for k, dv in d:
        if e.eq(k):
            return dv
    if z3.is_const(e) or z3.is_rational_value(e) or z3.is_int_value(e):
        return z3.RealVal(0)
    k, ch = e.decl().kind(), e.children()
    n = e.decl().name()
    if k == z3.Z3_OP_ADD:
        return z3.Sum([diff(c, d) for c in ch])
    if k == z3.Z3_OP_SUB:
        r = diff(ch[0], d)
        for c in ch[1:]:
            r = r - diff(c, d)
        return r
    if k == z3.Z3_OP_UMINUS:
        return -diff(ch[0], d)
    if k == z3.Z3_OP_MUL:
        r = z3.RealVal(0)
        for i, c in enumerate(ch):
            t = diff(c, d)
            for j, q in enumerate(ch):
                if j != i:
                    t = t * q
            r = r + t
        return r
    if k == z3.Z3_OP_DIV:
        a, b = ch
        return (diff(a, d) * b - a * diff(b, d)) / (b * b)
    if k == z3.Z3_OP_ITE:
        return z3.If(ch[0], diff(ch[1], d), diff(ch[2], d))
    if k == z3.Z3_OP_TO_REAL:
        return diff(ch[0], d)
    if n == "exp!":
        return e * diff(ch[0], d)
    if n == "normcdf!":
        return core.PDF(ch[0]) * diff(ch[0], d)
    if n == "normpdf!":
        return -ch[0] * e * diff(ch[0], d)
    if n == core.SQRT.name():
        return diff(ch[0], d) / (2 * e)
    raise Unsupported(f"derivative of {n}")


def apps(e, acc):
    for c in e.children():
        apps(c, acc)
    if e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() and e.decl().name() in ("exp!", "normcdf!", "normpdf!", core.SQRT.name()):
        if not any(e.eq(q) for q in acc):
            acc.append(e)
    return acc


def ratio(e):
    """numerator and denominator of an arithmetic term (If-free)"""
    k, ch = e.decl().kind(), e.children()
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = ratio(ch[0])
        for c in ch[1:]:
            n2, d2 = ratio(c)
            if d2.eq(d):
                n = n + n2 if k == z3.Z3_OP_ADD else n - n2
            else:
                n, d = (n * d2 + n2 * d if k == z3.Z3_OP_ADD else n * d2 - n2 * d), d * d2
        return n, d
    if k == z3.Z3_OP_UMINUS:
        n, d = ratio(ch[0])
        return -n, d
    if k == z3.Z3_OP_MUL:
        n, d = ratio(ch[0])
        for c in ch[1:]:
            n2, d2 = ratio(c)
            n, d = n * n2, (d if d2.eq(ONE) else d2 if d.eq(ONE) else d * d2)
        return n, d
    if k == z3.Z3_OP_DIV:
        (a, b), (c, d) = ratio(ch[0]), ratio(ch[1])
        return a * d if not d.eq(ONE) else a, b * c if not b.eq(ONE) else c
    return e, ONE


ONE = z3.RealVal(1)


def equal_terms(v, a, b, hyp):
    """is a == b for all reals satisfying hyp (decided by the solver on the cross-multiplied polynomial)"""
    (an, ad), (bn, bd) = ratio(a), ratio(b)
    if z3.is_true(z3.simplify(an * bd - bn * ad == 0, som=True)):
        return True
    s = z3.Solver()
    s.set("timeout", 1500)
    s.add(*hyp)
    s.add(an * bd != bn * ad)
    return s.check() == z3.unsat


def same(v, name, a, b, rel="=="):
    """a == b (or <=) for all values of the transcendental terms occurring in them (they become free reals with the stated facts);
    denominators are obliged to be non-zero and multiplied out"""
    a, b = core.to_real(lift(a)), core.to_real(lift(b))
    ts = apps(b, apps(a, []))
    sub, hyp = [], []
    S_ = lambda e: z3.substitute(e, *sub) if sub else e
    for t in [q for q in ts if q.decl().name() == core.SQRT.name()]:
        x = z3.Real(v.c.name("w"))
        hyp.append(x > 0)  # the deviation is positive on this path
        arg = S_(t.arg(0))
        sub.append((S_(t), x))
        if z3.is_const(arg):
            sub.append((arg, x * x))
        else:
            hyp.append(x * x == arg)
    done = []
    for t in [q for q in ts if q.decl().name() != core.SQRT.name()]:
        arg = S_(t.arg(0))
        x = None
        for d2, a2, x2 in done:
            if d2.eq(t.decl()) and equal_terms(v, a2, arg, hyp):
                x = x2
        if x is None:
            x = z3.Real(v.c.name("w"))
            hyp.append(x > 0)
            done.append((t.decl(), arg, x))
        sub.append((t.decl()(arg), x))
    a, b = S_(a), S_(b)
    pcs = [S_(h) for h in v.c.pc if not has_quant(h) and not apps(S_(h), [])]
    (an, ad), (bn, bd) = ratio(z3.simplify(a)), ratio(z3.simplify(b))
    H = z3.And(*(hyp + pcs)) if hyp + pcs else z3.BoolVal(True)
    if not (ad.eq(ONE) and bd.eq(ONE)):
        v.ensure(name + " (denominators)", z3.Implies(H, ad * bd != 0))
    if rel == "==":
        goal = z3.simplify(an * bd - bn * ad == 0, som=True)
    else:
        goal = (an * bd - bn * ad) * (ad * bd) <= 0
    v.ensure(name, z3.Implies(H, goal))


class M:
    """the contract of a surrogate: a mean and a non-negative variance at the point, and their gradients"""

    def __init__(self, v, shape, sigma2=False):
        self.v = v
        self.m, self.s2 = v.real("m"), v.real("s2", lo=0)
        self.d = v.int("d", 1)
        self.gm, self.gs = v.array("gm", (self.d, 1)), v.array("gs", (self.d, 1))
        self.shape = shape
        if sigma2:
            self.sigma2 = v.real("sigma2", gt=0)

    def _c(self, x):
        if self.shape == 1:
            return SymArray._make((1,), lambda i: lift(x), "f")
        return SymArray._make((1, 1), lambda i, j: lift(x), "f")

    def predict(self, X, eval_MSE=False):
        return (self._c(self.m), self._c(self.s2)) if eval_MSE else self._c(self.m)

    def gradient(self, X):
        return self.gm, self.gs


def first(v, x):
    while is_symarray(x):
        x = v.at(x, *([0] * len(x.shape)))
    if isinstance(x, (list, tuple)):
        return first(v, x[0])
    return x


def small(v, cls, mo, sd):
    """the documented cut-off below which the deviation counts as zero"""
    if cls == "EI":
        if hasattr(mo, "sigma2"):
            return sd / wrap(core.mk_sqrt(lift(mo.sigma2))) < 1e-6
        return sd < 1e-10
    return sd <= 1e-8


PAR = {"EI": {}, "PI": {}, "EpsilonPI": {"epsilon": None}, "UCB": {"alpha": None}, "MGFI": {"t": None}}


def build(v, cls, mo, mini):
    m = v.mod("acquisition.acquisition_fun")
    kw = {}
    if cls == "EpsilonPI":
        kw["epsilon"] = v.real("eps", lo=0, lt=1)
    if cls == "UCB":
        kw["alpha"] = v.real("alpha", gt=0)
    if cls == "MGFI":
        kw["t"] = v.real("t", gt=0, hi=22.36)
    p = v.real("p")
    if cls != "UCB":
        kw["plugin"] = p
    return getattr(m, cls)(model=mo, minimize=mini, **kw), p, kw


def definition(v, cls, m, s, p, kw):
    """textbook value for minimisation with predicted mean m, deviation s > 0, incumbent p"""
    Phi, phi, ex = (lambda x: wrap(core.CDF(core.to_real(lift(x))))), (lambda x: wrap(core.PDF(core.to_real(lift(x))))), (lambda x: wrap(core.EXP(core.to_real(lift(x)))))
    if cls == "UCB":
        return kw["alpha"] * s - m
    if cls == "EI":
        return (p - m) * Phi((p - m) / s) + s * phi((p - m) / s)
    if cls == "PI":
        return Phi((p - m) / s)
    if cls == "EpsilonPI":
        return Phi((p - (m - kw["epsilon"] * abs(m))) / s)
    t = kw["t"]
    return Phi((p - m + s * s * t) / s) * ex((p - m - 1) * t + s * s * t * t / 2)


def _mk(cls, mini, shape, sigma2):
    nm = f"{cls}_{'min' if mini else 'max'}_{shape}d" + ("_sigma2" if sigma2 else "")

    def body(v):
        mo = M(v, shape, sigma2)
        f, p, kw = build(v, cls, mo, mini)
        v.c.all_finite = True
        X = v.array("X", (1, mo.d))
        val = first(v, f(X))
        s = wrap(core.mk_sqrt(lift(mo.s2)))
        m_, p_ = (mo.m, p) if mini else (-1 * mo.m, -1 * p)
        vd, dx = f(X, return_dx=True)
        v.ensure("the value does not depend on whether the gradient is requested", v.eq(first(v, vd), val))
        j = v.generic(mo.d)
        if cls != "UCB" and v.c.decide(lift(small(v, cls, mo, s))):
            v.ensure("zero deviation counts as no improvement", v.eq(val, 0))
            v.ensure("gradient shape at zero deviation", v.eq(dx.shape[0] if not isinstance(dx, np.ndarray) else dx.shape[0], mo.d) if not isinstance(dx, tuple) else False)
            v.ensure("gradient is zero there", v.eq(v.at(dx, j, 0), 0))
            return
        v.assume(mo.s2 > 0)
        same(v, "value is the definition", val, definition(v, cls, m_, s, p_, kw))
        leaves = [(lift(mo.m), lift(v.at(mo.gm, j, 0))), (lift(mo.s2), lift(v.at(mo.gs, j, 0)))]
        v.ensure("one partial derivative per variable", v.eq(dx.shape[-1], mo.d))
        g = v.at(dx, 0, j) if len(dx.shape) == 2 else v.at(dx, j)
        same(v, "gradient is the derivative of the value", g, diff(core.to_real(lift(val)), leaves))
        mono = diff(core.to_real(lift(val)), [(lift(mo.m), z3.RealVal(1))])
        if mini:
            same(v, "monotone: a better (smaller) mean is never worth less", mono, z3.RealVal(0), "<=")
        else:
            same(v, "monotone: a better (larger) mean is never worth less", z3.RealVal(0), mono, "<=")

    proof(P, [A + cls + ".__call__", A + "AcquisitionFunction._predict", A + "AcquisitionFunction._gradient", A + "ImprovementBased.plugin"], name=nm, assume=[MATH], timeout=20000)(body)


for cls in PAR:
    for mini in (True, False):
        for shape in (1, 2):
            for sg in ((False, True) if cls == "EI" else (False,)):
                _mk(cls, mini, shape, sg)


@proof(P, [A + "ImprovementBased.plugin"])
def default_incumbent(v):
    m = v.mod("acquisition.acquisition_fun")
    n = v.int("n", 1)
    y = v.array("y", (n,))
    for mini in (True, False):
        mo = M(v, 1)
        mo.y = y
        for cls in ("EI", "PI", "EpsilonPI", "MGFI"):
            f = getattr(m, cls)(model=mo, minimize=mini)
            p = f.plugin
            i = v.generic(n)
            yi = v.at(y, i)
            v.ensure(f"incumbent bounds the data ({cls},{mini})", p <= (yi if mini else -1 * yi))
            k = z3.Int("k")
            v.ensure(f"incumbent is one of the data ({cls},{mini})", SymBool(z3.Exists([k], z3.And(in_range(k, n), lift(p) == (lift(v.at(y, SymNum(k))) if mini else -lift(v.at(y, SymNum(k))))))))


BO_ = "bayes_optim.bayes_opt."


@proof(P, [BO_ + "BO._create_acquisition", "bayes_optim.base.BaseBO._create_acquisition"])
def optimizer_passes_its_incumbent_and_direction(v):
    from contracts.opt import Log

    m = v.mod("bayes_opt")
    acq = v.mod("acquisition.acquisition_fun")
    for mini in (True, False):
        for cls in ("EI", "PI", "MGFI", "UCB"):
            for given in (False, True):
                o = m.BO.__new__(m.BO)
                mo = M(v, 1)
                lo, hi, own = v.real("fmin"), v.real("fmax"), v.real("own")

                class Sp:
                    var_name = ["a", "b"]

                o.__dict__.update(minimize=mini, _acquisition_fun=cls, _acquisition_par={}, model=mo, fmin=lo, fmax=hi, logger=Log(), _search_space=Sp())
                par = {"plugin": own} if given and cls != "UCB" else {}
                made = []
                v.stub(acq, cls, _Rec(getattr(acq, cls), made))
                o._create_acquisition(par=par)
                c = made[0]
                v.ensure(f"model ({cls},{mini})", c.model is mo)
                v.ensure(f"direction ({cls},{mini})", c.minimize is mini)
                if cls != "UCB":
                    want = own if given else (lo if mini else hi)
                    v.ensure(f"incumbent ({cls},{mini},{given})", v.eq(c.plugin, want if mini else -1 * want))
                v._restore()


class _Rec:
    def __init__(self, cls, log):
        self.cls, self.log = cls, log
        if hasattr(cls, "plugin"):
            self.plugin = cls.plugin

    def __call__(self, *a, **k):
        r = self.cls(*a, **k)
        self.log.append(r)
        return r


# ------------------------------------------------------------------ run-time contracts on the real package
class Fake:
    """smooth mean and variance of the point, with exact gradients"""

    def __init__(self, c, a, q, w, shape, y=None, sigma2=None, off=0.0):
        self.c, self.a, self.q, self.w, self.shape, self.off = np.asarray(c, float), a, np.asarray(q, float), np.asarray(w, float), shape, off
        if y is not None:
            self.y = y
        if sigma2 is not None:
            self.sigma2 = sigma2

    def ms(self, x):
        x = np.asarray(x, float).ravel()
        m = self.off + self.a * float(np.sum((x - self.c) ** 2)) + float(self.w @ x)
        z = float(np.sum((x - self.q) ** 2))
        return m, self.k * z / (1.0 + z) if hasattr(self, "k") else z

    def predict(self, X, eval_MSE=False):
        X = np.asarray(X, float)
        r = np.array([self.ms(x) for x in X])
        m, s = r[:, 0], r[:, 1]
        if self.shape == 2:
            m, s = m.reshape(-1, 1), s.reshape(-1, 1)
        return (m, s) if eval_MSE else m

    def gradient(self, x):
        x = np.asarray(x, float).ravel()
        gm = 2 * self.a * (x - self.c) + self.w
        gs = 2 * (x - self.q)
        return gm.reshape(-1, 1), gs.reshape(-1, 1)


def oracle(cls, m, s, p, kw):
    from scipy.stats import norm

    if cls == "UCB":
        return kw["alpha"] * s - m
    if cls == "EI":
        return (p - m) * norm.cdf((p - m) / s) + s * norm.pdf((p - m) / s)
    if cls in ("PI", "EpsilonPI"):
        return norm.cdf((p - (m - kw.get("epsilon", 0) * abs(m))) / s)
    t = min(kw["t"], 22.36)
    lg = norm.logcdf((p - m + s * s * t) / s) + (p - m - 1) * t + s * s * t * t / 2
    if (p - m - 1) * t + s * s * t * t / 2 > 709.7:
        return 0.0  # overflow counts as no information
    return float(np.exp(lg))


@bounded(P, [A + c + ".__call__" for c in PAR] + [A + "ImprovementBased.plugin"], n=12000, n_thorough=200000, budget=60,
         bound="random means, deviations (down to zero), incumbents, parameters, 1-4 variables, both output shapes, both directions, several magnitudes")
def values_and_gradients(b):
    import bayes_optim.acquisition.acquisition_fun as AF

    r = b.py
    for _ in b.loop():
        d, shape, mini = r.randint(1, 4), r.choice([1, 2]), r.random() < 0.5
        cls = r.choice(list(PAR))
        mag = r.choice([1.0, 1.0, 1.0, 0.01, 30.0])
        q = [r.uniform(-1, 1) for _ in range(d)]
        mo = Fake([r.uniform(-1, 1) for _ in range(d)], mag * r.uniform(-1, 1), q, [mag * r.uniform(-1, 1) for _ in range(d)], shape, off=mag * r.uniform(-1, 1))
        if r.random() < 0.4:
            mo.sigma2 = r.choice([1.0, 0.1, 5.0])
        x = [r.uniform(-2, 2) for _ in range(d)]
        if r.random() < 0.1:
            x = list(q)
            if r.random() < 0.5:  # a deviation of one
                x[r.randrange(d)] += 1.0
        kw = {}
        if cls == "EpsilonPI":
            kw["epsilon"] = r.choice([0, 1e-10, 0.01, 0.3])
        if cls == "UCB":
            kw["alpha"] = r.choice([0.5, 1e-3, 2.0, 10.0])
        if cls == "MGFI":
            kw["t"] = r.choice([1, 0.1, 2, 5.0, 22.36, 60.0])
        p = mag * r.uniform(-2, 2)
        dflt = cls != "UCB" and r.random() < 0.3
        if dflt:
            mo.y = np.array([mag * r.uniform(-2, 2) for _ in range(r.randint(1, 6))])
            p = mo.y.min() if mini else mo.y.max()
        args = dict(kw) if cls == "UCB" or dflt else dict(kw, plugin=p)
        f = getattr(AF, cls)(model=mo, minimize=mini, **args)
        m, s = mo.ms(x)[0], float(np.sqrt(mo.ms(x)[1]))
        m_, p_ = (m, p) if mini else (-m, -p)
        val = f(x if r.random() < 0.5 else np.array([x], dtype=object if r.random() < 0.3 else float))
        info = dict(cls=cls, x=x, mean=m, sd=s, plugin=p, minimize=mini, shape=shape, **kw)
        num = float(np.ravel(val)[0])
        b.check(np.size(val) == 1 and np.isfinite(num), "the value is not one finite number", got=val, **info)
        tiny = s == 0 or (cls == "EI" and (s / np.sqrt(mo.sigma2) < 1e-6 if hasattr(mo, "sigma2") else s < 1e-10)) or (cls in ("PI", "EpsilonPI", "MGFI") and s <= 1e-8)
        if tiny and cls != "UCB":
            b.check(num == 0, "zero deviation counts as no improvement", got=num, **info)
            out = f(x, return_dx=True)
            b.check(float(np.ravel(out[0])[0]) == 0, "the value depends on whether the gradient is requested", got=out, **info)
            b.check(np.asarray(out[1]).size == d and not np.any(out[1]), "gradient at zero deviation", got=out, **info)
            continue
        want = oracle(cls, m_, s, p_, kw) if s > 0 else -m_
        b.check(abs(num - want) <= 1e-9 * max(1.0, abs(want)), "value differs from the definition", got=num, want=want, **info)
        dual = Fake(mo.c, -mo.a, mo.q, -mo.w, shape, off=-mo.off, y=-mo.y if dflt else None, sigma2=getattr(mo, "sigma2", None))
        a2 = dict(kw) if cls == "UCB" or dflt else dict(kw, plugin=-p)
        other = float(np.ravel(getattr(AF, cls)(model=dual, minimize=not mini, **a2)(x))[0])
        b.check(abs(other - num) <= 1e-12 * max(1.0, abs(num)), "maximizing differs from minimizing the negation", got=num, want=other, **info)
        if s > 1e-3 and abs(want) < 1e280:
            v1, g = f(x, return_dx=True)
            b.check(float(np.ravel(v1)[0]) == num, "the value depends on whether the gradient is requested", **info)
            g = np.asarray(g, float).ravel()
            b.check(g.size == d, "one partial derivative per variable", got=g, **info)
            if cls in ("PI", "EpsilonPI") and abs(m) < 1e-3:
                continue
            h = 1e-5 * min(1.0, s)
            ov = False
            for j in range(d):
                fd = []
                for e in (-2, -1, 1, 2):
                    z = list(x)
                    z[j] += e * h
                    mz, sz = mo.ms(z)[0], float(np.sqrt(mo.ms(z)[1]))
                    fd.append(oracle(cls, *((mz, sz, p) if mini else (-mz, sz, -p)), kw))
                    ov = ov or (cls == "MGFI" and fd[-1] == 0.0)
                num_g = (fd[0] - 8 * fd[1] + 8 * fd[2] - fd[3]) / (12 * h)
                sc = max(abs(num_g), abs(want) / min(1.0, s), 1e-6 * abs(want) / h, 1e-9 / h * max(1e-3, abs(want)))
                if not ov and np.isfinite(num_g):
                    b.check(abs(num_g - g[j]) <= 1e-3 * sc + 1e-7, "gradient is not the derivative of the value", got=g[j], want=num_g, j=j, **info)


@bounded(P, ["bayes_optim.surrogate.gaussian_process.gpr.GaussianProcess.gradient", "bayes_optim.surrogate.random_forest.SurrogateAggregation.predict"] + [A + c + ".__call__" for c in ("EI", "UCB", "MGFI", "PI")],
         n=60, n_thorough=1000, budget=60, bound="Gaussian processes fitted to 8-14 points in 1-3 dimensions (matern, squared exponential), gradients of prediction and of every acquisition function at random points")
def gradients_on_fitted_models(b):
    import bayes_optim.acquisition.acquisition_fun as AF
    from bayes_optim import GaussianProcess, trend
    from bayes_optim.surrogate import SurrogateAggregation

    r = b.py
    for _ in b.loop():
        d = r.randint(1, 3)
        X = b.rng.uniform(-2, 2, size=(r.randint(8, 14), d))
        y = np.sum(X**2, axis=1) + 0.3 * X[:, 0]
        y = (y - y.mean()) / y.std()
        gp = GaussianProcess(mean=trend.constant_trend(d), corr=r.choice(["matern", "squared_exponential"]), thetaL=1e-2 * np.ones(d), thetaU=10 * np.ones(d), nugget=1e-6, noise_estim=False,
                             optimizer="BFGS", wait_iter=2, random_start=3, likelihood="concentrated", eval_budget=50)
        gp.fit(X, y)
        for _k in range(4):
            x = b.rng.uniform(-1.8, 1.8, size=d)
            if np.min(np.linalg.norm(X - x, axis=1)) < 0.1:
                continue
            if float(np.ravel(gp.predict(np.array([x]), eval_MSE=True)[1])[0]) < 1e-4:
                continue
            fs = [(lambda z: float(np.ravel(gp.predict(np.array([z])))[0]), np.ravel(gp.gradient(x)[0]), "mean"),
                  (lambda z: float(np.ravel(gp.predict(np.array([z]), eval_MSE=True)[1])[0]), np.ravel(gp.gradient(x)[1]), "variance")]
            for cls in ("EI", "UCB", "MGFI", "PI"):
                for mini in (True, False):
                    f = getattr(AF, cls)(model=gp, minimize=mini)
                    fs.append((lambda z, f=f: float(np.ravel(f(z))[0]), np.ravel(np.asarray(f(x, return_dx=True)[1], float)), f"{cls} minimize={mini}"))
            for f, g, nm in fs:
                h = 1e-4
                for j in range(d):
                    e = np.zeros(d)
                    e[j] = h
                    num = (f(x - 2 * e) - 8 * f(x - e) + 8 * f(x + e) - f(x + 2 * e)) / (12 * h)
                    b.check(abs(num - g[j]) <= 2e-2 * max(abs(num), abs(f(x)), 1e-2), f"gradient of {nm} is not its derivative", got=g[j], want=num, x=x, d=d)
        w = [r.uniform(0.1, 1) for _ in range(2)]
        agg = SurrogateAggregation([gp, gp], weights=w)
        Z = b.rng.uniform(-2, 2, size=(3, d))
        m, s = gp.predict(Z, eval_MSE=True)
        ma, sa = agg.predict(Z, eval_MSE=True)
        b.check(np.allclose(ma, sum(w) * np.ravel(m)) and np.allclose(sa, (w[0] ** 2 + w[1] ** 2) * np.ravel(s)) and np.allclose(agg.predict(Z), ma), "weighted sum of surrogates", got=(ma, sa))
