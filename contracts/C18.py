"""C18 surrogate models are trained on exactly the recorded data."""
import numpy as np

from pyvc.verify import *
from contracts.opt import *

P = "C18"
BO_ = "bayes_optim.base.BaseBO."
EX = "bayes_optim.extension."
MO = "bayes_optim.mobo.BaseMOBO."
RF = "bayes_optim.surrogate.random_forest.RandomForest."
NAMES = ["p", "q"]


# ------------------------------------------------------------------ proofs
class Recorder(Model):
    def __init__(self, v, k=None):
        super().__init__()
        self.v, self.k, self.fits, self.preds = v, k, [], []

    def fit(self, X, y):
        self.fits.append((X, y))
        return self

    def predict(self, X, eval_MSE=False):
        self.preds.append(X)
        return self.v.array(self.v.c.name("hat"), (X.shape[0],) if self.k is None else (X.shape[0], self.k))


def _quiet(v, m):
    for f in ("r2_score", "mean_absolute_percentage_error", "mean_squared_error"):
        if hasattr(m, f):
            v.stub(m, f, lambda *a, **k: 0.0)


def _standardized(v, n, F, y, o, affine=False):
    """y: the values the model was trained on; F: the recorded ones"""
    i, j = v.generic(n), v.generic(n)
    fi, fj, yi, yj = v.at(F, i), v.at(F, j), y(i), y(j)
    v.ensure("the order of the values is kept", v.implies(fi < fj, yi < yj))
    v.ensure("equal values stay equal", v.implies(v.eq(fi, fj), v.eq(yi, yj)))
    if affine:  # nonlinear and slow: discharged by the thorough check, the quick one has the bounded histories for it
        k = v.generic(n)
        fk, yk = v.at(F, k), y(k)
        v.ensure("one affine map for all values", v.eq((yi - yj) * (fi - fk), (yi - yk) * (fi - fj)))
    v.ensure("the best and worst trained values are remembered", v.and_(o.fmin <= yi, yi <= o.fmax))


def _attained(v, n, val, y):
    q = z3.Int(v.c.name("q"))
    return SymBool(z3.Exists([q], z3.And(in_range(q, n), lift(v.eq(val, y(wrap(q)))))))


def _train(affine=False):
    def body(v):
        m = v.mod("base")
        _quiet(v, m)
        n = v.int("n", 1)
        s, src = solutions(v, "a", n, NAMES)
        o = optimizer(v, m.BaseBO, NAMES, data=s)
        o.model = Recorder(v)
        try:
            o.update_model()
        except m.FlatFitnessError:
            v.ensure("only values without spread are refused", v.and_(n > 5, symnp._std(src["F"]) <= 1e-8, len(o.model.fits) == 0))
            return
        v.ensure("the model is trained once, on the recorded points", len(o.model.fits) == 1 and o.model.fits[0][0] is o.data and o.data is s)
        Y = o.model.fits[0][1]
        v.ensure("one value per point", v.and_(v.eq(Y.shape[0], n), v.eq(Y.shape[1], 1)))
        y = lambda i: v.at(Y, i, 0)
        i = v.generic(n)
        _standardized(v, n, src["F"], y, o, affine)
        for c in range(2):
            v.ensure(f"the recorded point is not changed {c}", v.eq(v.at(o.data, i, c), v.at(src["X"], i, c)))
        v.ensure("the recorded value is not changed", v.eq(v.at(o.data.fitness, i), v.at(src["F"], i)))

    return body


proof(P, [BO_ + "update_model"], name="training_data", timeout=20000, assume=["numpy's mean and standard deviation over the reals; the quality figures (r2, MAPE) are only logged"])(_train())
proof(P, [BO_ + "update_model"], name="training_data_affine", timeout=150000, thorough=True, assume=["numpy's mean and standard deviation over the reals; the quality figures (r2, MAPE) are only logged"])(_train(True))


@proof(P, [BO_ + "update_model"], timeout=20000)
def incumbents_are_attained(v):
    m = v.mod("base")
    _quiet(v, m)
    n = v.int("n", 1)
    s, src = solutions(v, "a", n, NAMES)
    o = optimizer(v, m.BaseBO, NAMES, data=s)
    o.model = Recorder(v)
    try:
        o.update_model()
    except m.FlatFitnessError:
        return
    Y = o.model.fits[0][1]
    y = lambda i: v.at(Y, i, 0)
    v.ensure("the smallest trained value", _attained(v, n, o.fmin, y))
    v.ensure("the largest trained value", _attained(v, n, o.fmax, y))


def _reduced(v, affine):
    m = v.mod("extension")
    _quiet(v, m)
    n = v.int("n", 1)
    made = []

    def gp(**k):
        made.append(Recorder(v))
        return made[-1]

    v.stub(m, "GaussianProcess", gp)
    v.stub(m.trend, "constant_trend", lambda d: None)
    X, F = v.array("X", (n, 2)), v.array("F", n)

    class Sp:
        dim = 2
        bounds = [(0.0, 1.0), (0.0, 2.0)]

    o = optimizer(v, m.PCABO, NAMES)
    o._search_space = Sp()
    o.update_model(X, F)
    v.ensure("a new model is trained once, on the points it was given", len(made) == 1 and len(made[0].fits) == 1 and made[0].fits[0][0] is X and o.model is made[0])
    Y = made[0].fits[0][1]
    v.ensure("one value per point", v.eq(Y.shape[0], n))
    _standardized(v, n, F, lambda i: v.at(Y, i), o, affine)


for _a in (False, True):
    proof(P, [EX + "PCABO.update_model"], name="reduced_training_data" + ("_affine" if _a else ""), timeout=150000 if _a else 20000, thorough=_a, assume=["the Gaussian process is replaced by a recorder"])(lambda v, _a=_a: _reduced(v, _a))


def _pca_tell(first):
    def body(v):
        m, sm = v.mod("extension"), v.mod("solution")
        n, d0 = v.int("n", 1), v.int("d0", 1)
        o = optimizer(v, m.PCABO, NAMES)
        log = {}
        old = None
        if not first:
            s, old = solutions(v, "d", d0, NAMES)
            o.data = s
        X, F = v.array("X", (n, 2), "O"), v.array("F", n)

        class Pca:
            def fit_transform(self, A, y):
                log["fit"] = (A, y)
                log["Z"] = object()
                return log["Z"]

        orig = object()
        o._pca = Pca()
        o._PCABO__search_space = orig
        v.stub(m.PCABO, "_compute_bounds", lambda *a: log.setdefault("b", a[-2:]) and "bounds")
        v.stub(m, "RealSpace", lambda b: ("space", b))
        v.stub(m.PCABO, "update_model", lambda self, A, y: log.setdefault("train", (A, y)))
        v.stub(m.PCABO, "xopt", sm.Solution(v.array("best", (1, 2), "O"), fitness=v.array("bf", 1), var_name=NAMES)[0])
        v.stub(sm.Solution, "__str__", lambda self: "")
        v.stub(m.PCABO, "post_eval_check", lambda self, x: x)
        o.tell(X, F)
        off = 0 if first else d0
        i = v.generic(n)
        A, y = log["fit"]
        v.ensure("all recorded points are transformed with all recorded values", v.and_(v.eq(A.shape[0], off + n), v.eq(y.shape[0], off + n)))
        v.ensure("the new points", v.and_(*[v.eq(v.at(A, i + off, c), v.at(X, i, c)) for c in range(2)]))
        v.ensure("the new values", v.eq(v.at(y, i + off), v.at(F, i)))
        if not first:
            j = v.generic(d0)
            v.ensure("the earlier points", v.and_(*[v.eq(v.at(A, j, c), v.at(old["X"], j, c)) for c in range(2)]))
            v.ensure("the earlier values", v.eq(v.at(y, j), v.at(old["F"], j)))
        v.ensure("the model is trained on the images of the points with their values", log["train"][0] is log["Z"])
        k = v.generic(off + n)
        v.ensure("the model is trained with the values of the points", v.and_(v.eq(log["train"][1].shape[0], off + n), v.eq(v.at(log["train"][1], k), v.at(y, k))))
        v.ensure("the reduced domain is derived from the current transformation and the original domain", log["b"][0] is o._pca and log["b"][1] is orig and o._search_space == ("space", "bounds"))

    return body


for _f in (True, False):
    proof(P, [EX + "PCABO.tell"], name=f"reduced_points_{'first' if _f else 'later'}", timeout=20000, assume=["the logged text is not under contract"])(_pca_tell(_f))


@proof(P, [EX + "LinearTransform.fit", EX + "LinearTransform.transform", EX + "LinearTransform.fit_transform", EX + "LinearTransform.inverse_transform"],
       assume=["sklearn's PCA: transform(X) = (X - mean) C', inverse_transform(Z) = Z C + mean, with orthonormal rows C"])
def linear_transform(v):
    m = v.mod("extension")
    n = v.int("n", 1)
    X, F = v.array("X", (n, 2)), v.array("F", n)
    c = [v.real("c0"), v.real("c1")]
    mu = [v.real("m0"), v.real("m1")]
    v.assume(v.eq(c[0] * c[0] + c[1] * c[1], 1))
    log = []

    def fit(self, A, y=None):
        log.append(A)
        self.components_, self.mean_ = [c], mu
        return self

    v.stub(m.PCA, "fit", fit)
    v.stub(m.PCA, "transform", lambda self, A: SymArray._make((A.shape[0], 1), lambda i, j: (lift(v.at(A, wrap(i), 0)) - lift(mu[0])) * lift(c[0]) + (lift(v.at(A, wrap(i), 1)) - lift(mu[1])) * lift(c[1]), "f"))
    v.stub(m.PCA, "inverse_transform", lambda self, Z: SymArray._make((Z.shape[0], 2), lambda i, j: lift(v.at(Z, wrap(i), 0)) * z3.If(j == 0, lift(c[0]), lift(c[1])) + z3.If(j == 0, lift(mu[0]), lift(mu[1])), "f"))
    o = m.LinearTransform.__new__(m.LinearTransform)
    o.minimize = True
    Z0 = v.array("Z0", (n, 2))
    v.ensure("nothing is transformed back before the first fit", o.inverse_transform(Z0) is Z0)
    o.center = v.array("center", 2)
    i = v.generic(n)
    o.components_, o.mean_ = [c], mu
    Z = o.transform(X)
    ctr = [v.at(o.center, k) for k in range(2)]
    v.ensure("a point is projected after centering", v.eq(v.at(Z, i, 0), (v.at(X, i, 0) - ctr[0] - mu[0]) * c[0] + (v.at(X, i, 1) - ctr[1] - mu[1]) * c[1]))
    B = o.inverse_transform(Z)
    v.ensure("the image lies on the reduced plane", v.and_(*[v.eq(v.at(B, i, k), v.at(Z, i, 0) * c[k] + mu[k] + ctr[k]) for k in range(2)]))
    Z2 = o.transform(B)
    v.ensure("transforming back and forth is the identity on the reduced space", v.eq(v.at(Z2, i, 0), v.at(Z, i, 0)))


def _reduced_domain(d):
    def body(v):
        m = v.mod("extension")
        lo = [v.real(f"l{i}") for i in range(d)]
        hi = [v.real(f"u{i}") for i in range(d)]
        c = [v.real(f"c{i}") for i in range(d)]
        mu = v.array("mean", d)
        ctr = v.array("center", d)
        x = [v.real(f"x{i}") for i in range(d)]
        for i in range(d):
            v.assume(v.and_(lo[i] < hi[i], lo[i] <= x[i], x[i] <= hi[i]))
        v.assume(v.eq(sum(q * q for q in c), 1))

        class Pca:
            mean_, center, components_ = mu, ctr, m.np.array([c])

        class Sp:
            bounds = [(a, b) for a, b in zip(lo, hi)]

        B = m.PCABO._compute_bounds(Pca(), Sp())
        v.ensure("one interval per direction", len(B) == 1 and len(B[0]) == 2)
        z = sum(c[i] * (x[i] - v.at(mu, i) - v.at(ctr, i)) for i in range(d))
        # lemma (Cauchy-Schwarz): the projection of the vector from the centre to the point is not longer than half the diagonal
        w, h = [v.real(f"w{i}") for i in range(d)], [v.real(f"h{i}") for i in range(d)]
        for i in range(d):  # names for the offset from the middle and for half the width
            v.assume(v.and_(v.eq(w[i], x[i] - (lo[i] + hi[i]) / 2), v.eq(h[i], (hi[i] - lo[i]) / 2)))
        t = sum(c[i] * w[i] for i in range(d))
        n2, R2 = sum(q * q for q in w), sum(q * q for q in h)
        for i in range(d):
            v.lemma(f"a coordinate is within half the width {i}", w[i] * w[i] <= h[i] * h[i])
        name = lambda nm, e: (lambda q: (v.assume(v.eq(q, e)), q)[1])(v.real(nm))
        n2, R2, T = name("n2", n2), name("R2", R2), name("T", t * t)
        lag = name("lag", 0) if d == 1 else name("lag", sum((c[i] * w[j] - c[j] * w[i]) * (c[i] * w[j] - c[j] * w[i]) for i in range(d) for j in range(i)))
        v.lemma("Lagrange's identity", v.eq(T + lag, n2))
        v.lemma("squares", lag >= 0)
        v.lemma("the vector is within half the diagonal", n2 <= R2)
        v.lemma("the projection is within half the diagonal", T <= R2)
        mid, rad, tn = name("mid", (B[0][0] + B[0][1]) / 2), name("rad", (B[0][1] - B[0][0]) / 2), name("tn", t)
        v.lemma("the middle of the interval is the image of the middle of the box", v.eq(z - mid, tn))
        v.lemma("the interval is not shorter than the diagonal", v.and_(rad >= 0, rad * rad >= R2))
        v.lemma("the square of the projection", v.eq(T, tn * tn))
        v.fact("squares order non-negative numbers", lambda a, b: v.implies(v.and_(b >= 0, a * a <= b * b), v.and_(a <= b, -a <= b)), tn, rad)
        v.lemma("the projection is within the interval", v.and_(tn <= rad, -tn <= rad))
        v.ensure("the image of every point of the box lies in the interval", v.and_(B[0][0] <= z, z <= B[0][1]))

    return body


for _d in (1, 2, 3):
    proof(P, [EX + "PCABO._compute_bounds"], name=f"reduced_domain_{_d}", timeout=30000, assume=["one direction at a time; the directions are unit vectors (PCA)"])(_reduced_domain(_d))


@proof(P, ["bayes_optim.bayes_opt.BO._create_acquisition", BO_ + "_create_acquisition"])
def incumbent_of_the_acquisition(v):
    m, mb = v.mod("bayes_opt"), v.mod("base")
    fmin, fmax = v.real("fmin"), v.real("fmax")
    made = []

    class WithPlugin:
        plugin = None

        def __init__(self, **k):
            made.append(k)

        def __call__(self, *a, **k):
            return None

    class NoPlugin(WithPlugin):
        pass

    class Lib:
        EI, PI, MGFI = WithPlugin, WithPlugin, WithPlugin

        class UCB:
            __init__, __call__ = WithPlugin.__init__, WithPlugin.__call__

    class Sp:
        var_name = NAMES

    v.stub(m, "AcquisitionFunction", Lib)
    v.stub(mb, "AcquisitionFunction", Lib)
    v.stub(mb, "partial_argument", lambda **k: k["func"])
    for mini in (True, False):
        o = optimizer(v, m.BO, NAMES, minimize=mini, fmin=fmin, fmax=fmax, _acquisition_fun="EI", _acquisition_par={"t": 3})
        o._search_space = Sp()
        for fun in (None, "PI", "MGFI"):
            made.clear()
            o._create_acquisition(fun=fun, par={})
            k = made[0]
            v.ensure(f"the incumbent is the best trained value ({mini}, {fun})", len(made) == 1 and k["plugin"] is (fmin if mini else fmax))
            v.ensure(f"the current model and direction are used ({mini}, {fun})", k["model"] is o.model and k["minimize"] is mini)
        made.clear()
        own = v.real("own")
        o._create_acquisition(fun="EI", par={"plugin": own, "xi": 1})
        v.ensure(f"an incumbent given by the caller is kept ({mini})", made[0]["plugin"] is own and made[0]["xi"] == 1)
        made.clear()
        o._create_acquisition(fun="UCB", par={"alpha": 0.5})
        v.ensure(f"criteria without an incumbent get none ({mini})", "plugin" not in made[0] and made[0]["alpha"] == 0.5)


@proof(P, ["bayes_optim.bayes_opt.NoisyBO._create_acquisition"])
def noisy_incumbent(v):
    m = v.mod("bayes_opt")
    n = v.int("n", 1)
    s, src = solutions(v, "a", n, NAMES)
    Y = v.array("hat", (n, 1))
    got = []

    class Lib:
        class EI:
            plugin = None

    class Pred(Model):
        def predict(self, X, eval_MSE=False):
            got.append(X)
            return Y

    v.stub(m, "AcquisitionFunction", Lib)
    v.stub(m.BO, "_create_acquisition", lambda self, fun, par, **k: par)
    for mini in (True, False):
        got.clear()
        o = optimizer(v, m.NoisyBO, NAMES, minimize=mini, data=s, _acquisition_fun="EI")
        o.model = Pred()
        p = o._create_acquisition(par={"t": 2})
        i = v.generic(n)
        b = p["plugin"]
        v.ensure(f"the predictions at the recorded points are used ({mini})", len(got) == 1 and got[0] is s)
        v.ensure(f"the incumbent is the best prediction ({mini})", (b <= v.at(Y, i, 0)) if mini else (b >= v.at(Y, i, 0)))
        v.ensure(f"it is one of the predictions ({mini})", _attained(v, n, b, lambda q: v.at(Y, q, 0)))
        v.ensure(f"other parameters are kept ({mini})", p["t"] == 2)


def _mo(k):
    def body(v):
        m = v.mod("mobo")
        _quiet(v, m)
        n = v.int("n", 1)
        s, src = solutions(v, "a", n, NAMES, k=k)
        a = [v.real(f"a{c}", gt=0) for c in range(k)]
        c0 = [v.real(f"c{c}") for c in range(k)]
        seen = []

        class Scaler:
            """sklearn's MinMaxScaler: one increasing affine map per column"""

            def fit_transform(self, F):
                seen.append(F)
                return SymArray._make((F.shape[0], k), lambda i, j: _sel(j, a) * F._at(i, j) + _sel(j, c0), "f")

        def _sel(j, xs):
            e = lift(xs[-1])
            for q in range(len(xs) - 2, -1, -1):
                e = z3.If(j == q, lift(xs[q]), e)
            return e

        v.stub(m, "MinMaxScaler", Scaler)
        mini = [v.bool(f"mini{c}") for c in range(k)]
        import itertools

        for dirs in itertools.product((True, False), repeat=k):
            seen.clear()
            o = optimizer(v, m.BaseMOBO, NAMES, n_obj=k, minimize=m.np.asarray(list(dirs)), data=s)
            o.model = Recorder(v, k)
            o.update_model()
            v.ensure(f"trained once on the recorded points {dirs}", len(o.model.fits) == 1 and o.model.fits[0][0] is s)
            Y = o.model.fits[0][1]
            i, j = v.generic(n), v.generic(n)
            v.ensure(f"one row per point and one column per objective {dirs}", v.and_(v.eq(Y.shape[0], n), Y.shape[1] == k))
            for c, d in enumerate(dirs):
                fi, fj = v.at(src["F"], i, c), v.at(src["F"], j, c)
                yi, yj = v.at(Y, i, c), v.at(Y, j, c)
                v.ensure(f"objective {c} {dirs}: better values are trained as larger ones", v.implies(fi < fj if d else fi > fj, yi > yj))
                v.ensure(f"objective {c} {dirs}: equal values stay equal", v.implies(v.eq(fi, fj), v.eq(yi, yj)))

    return body


for _k in (2, 3):
    proof(P, [MO + "update_model", MO + "y"], name=f"several_objectives_{_k}", timeout=20000, assume=["sklearn's MinMaxScaler is an increasing affine map for each column"])(_mo(_k))


@proof(P, [RF + "_check_X", RF + "fit"], assume=["sklearn's OneHotEncoder: one indicator per listed level, in order, for each column"])
def encoding(v):
    m = v.mod("surrogate.random_forest")
    n = v.int("n", 1)
    X = v.array("X", (n, 4), "O")
    # columns 0 and 2 are numbers, 1 and 3 categorical with two and three levels
    N = z3.Function("num", X._at(0, 0).sort(), REAL)
    lev = {3: ["a", "b", "c"], 1: ["u", "w"]}
    ind = z3.Function("indicator", X._at(0, 0).sort(), INT, INT, REAL)
    got = []

    class Enc:
        def fit_transform(self, A):
            got.append(A)
            return SymArray._make((A.shape[0], 5), lambda i, j: z3.If(j < 2, ind(A._at(i, z3.IntVal(0)), z3.IntVal(0), j), ind(A._at(i, z3.IntVal(1)), z3.IntVal(1), j - 2)), "f")

    o = m.RandomForest.__new__(m.RandomForest)
    from collections import OrderedDict

    o._levels = OrderedDict(sorted(lev.items()))
    o._cat_idx, o._categories, o._enc = list(o._levels.keys()), list(o._levels.values()), Enc()
    R = o._check_X(X)
    i = v.generic(n)
    v.ensure("one row per point", v.eq(R.shape[0], n))
    v.ensure("two numbers and five indicators", v.eq(R.shape[1], 7))
    v.ensure("the categorical columns are encoded", v.and_(v.eq(v.at(got[0], i, 0), v.at(X, i, 1)), v.eq(v.at(got[0], i, 1), v.at(X, i, 3))))
    for j in range(5):
        v.ensure(f"indicator {j}", v.eq(v.at(R, i, 2 + j), wrap(ind(lift(v.at(X, i, 1 if j < 2 else 3)), z3.IntVal(0 if j < 2 else 1), z3.IntVal(j if j < 2 else j - 2)))))
    for j, c in enumerate((0, 2)):
        v.ensure(f"number {c}", v.eq(v.at(R, i, j), wrap(symnp.conv(lift(v.at(X, i, c)), "f"))))


@proof(P, [RF + "fit"])
def forest_training(v):
    m = v.mod("surrogate.random_forest")
    n = v.int("n", 1)
    got = []
    o = m.RandomForest.__new__(m.RandomForest)
    enc = object()
    v.stub(m.RandomForest, "_check_X", lambda self, X: (got.append(X), enc)[1])
    v.stub(m.RandomForestRegressor, "fit", lambda self, X, y: (got.append((X, y)), self)[1])
    X = object()
    for nm, Y, at in (("column", v.array("Y", (n, 1)), lambda A, i: v.at(A, i, 0)), ("vector", v.array("y", n), lambda A, i: v.at(A, i))):
        got.clear()
        r = o.fit(X, Y)
        v.ensure(f"the encoded points are used ({nm})", got[0] is X and got[1][0] is enc and len(got) == 2)
        i = v.generic(n)
        y = got[1][1]
        v.ensure(f"each with its own value ({nm})", v.and_(len(y.shape) == 1, v.eq(y.shape[0], n), v.eq(v.at(y, i), at(Y, i))))
        v.ensure(f"the model is returned and marked as trained ({nm})", r is o and o.is_fitted)


# ------------------------------------------------------------------ run-time contracts
def _affine(b, f, y, what, increasing=True, **info):
    f, y = np.asarray(f, dtype=float).ravel(), np.asarray(y, dtype=float).ravel()
    b.check(f.shape == y.shape, f"{what}: one training value per recorded value", got=y.shape, want=f.shape, **info)
    i, j = int(np.argmin(f)), int(np.argmax(f))
    if f[i] == f[j]:
        b.check(np.allclose(y, y[0], rtol=1e-9, atol=1e-9), f"{what}: equal values are trained as different ones", f=f, y=y, **info)
        return
    s = (y[j] - y[i]) / (f[j] - f[i])
    b.check((s > 0) == increasing and s != 0, f"{what}: the order of the values is not kept", f=f, y=y, **info)
    w = y[i] + s * (f - f[i])
    b.check(np.allclose(y, w, rtol=1e-6, atol=1e-6 * max(1.0, float(np.max(np.abs(y))))), f"{what}: a point is not trained with its own value", f=f, y=y, want=w, **info)


def _rows(X):
    return np.asarray(X, dtype=object).tolist()


@bounded(P, [BO_ + "update_model", BO_ + "tell", "bayes_optim.bayes_opt.BO._create_acquisition", "bayes_optim.bayes_opt.NoisyBO._create_acquisition", "bayes_optim.bayes_opt.ParallelBO._batch_arg_max_acquisition"],
         n=250, n_thorough=6000, budget=90,
         bound="histories of 1-6 reports of 1-5 points (some failed) to BO, ParallelBO, AnnealingBO, SelfAdaptiveBO, MultiAcquisitionBO and NoisyBO on random mixed spaces, both directions, values of size 1e-3 to 1e6")
def training_histories(b):
    import bayes_optim.search_space as S
    from bayes_optim import BO, AnnealingBO, NoisyBO, ParallelBO
    from bayes_optim.acquisition import acquisition_fun as AF
    from bayes_optim.bayes_opt import SelfAdaptiveBO
    from bayes_optim.extension import MultiAcquisitionBO
    from contracts import gen

    r = b.py
    orig = {k: getattr(AF, k).__init__ for k in ("EI", "PI", "MGFI", "UCB", "EpsilonPI")}
    made = []

    def spy(cls, init):
        def __init__(self, *a, **k):
            if type(self) is cls:
                made.append((cls.__name__, k))
            init(self, *a, **k)

        return __init__

    try:
        for k_, i_ in orig.items():
            getattr(AF, k_).__init__ = spy(getattr(AF, k_), i_)
        for case in b.loop():
            ss = gen.specs(b.rng, lo=0, hi=3) if r.random() < 0.8 else []
            ss = [s for s in ss] + [dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont")]
            sp = gen.space(ss, S)
            names = list(sp.var_name)
            cls = r.choice([BO, BO, ParallelBO, AnnealingBO, SelfAdaptiveBO, MultiAcquisitionBO, NoisyBO])
            mini = r.random() < 0.5
            size = 10 ** r.uniform(-3, 6)
            mod = Surrogate()
            kw = dict(search_space=sp, obj_fun=None, model=mod, minimize=mini, max_FEs=50, DoE_size=3, acquisition_optimization=AQ)
            if cls is BO:
                kw["acquisition_fun"] = r.choice(["EI", "PI", "MGFI"])
            elif cls is NoisyBO:
                kw.update(n_point=2)
            else:
                kw.update(n_point=2)
            o = cls(**kw)
            info = dict(cls=cls.__name__, minimize=mini, size=size)
            rec = []
            try:
                for t in range(r.randint(1, 6)):
                    n = r.randint(1, 5) if t else r.randint(2, 5)
                    pts = sp.sample(n).tolist()
                    vals = [r.gauss(0, 1) * size + 3 * size for _ in pts]
                    if n > 2:
                        vals = [r.choice([float("nan"), float("inf"), f]) if r.random() < 0.1 else f for f in vals]
                        if len([f for f in vals if np.isfinite(f)]) < 2:
                            vals = list(range(n))
                    fits = len(mod.fits)
                    o.tell([list(p) for p in pts], list(vals))
                    rec += [(list(p), f) for p, f in zip(pts, vals) if np.isfinite(f)]
                    b.check(len(mod.fits) > fits, "the model is not trained after a report", **info)
                    X, y = mod.fits[-1]
                    b.check(_rows(X) == [p for p, _ in rec], "the model is not trained on exactly the recorded points", got=_rows(X), want=[p for p, _ in rec], **info)
                    _affine(b, [f for _, f in rec], y, "training values", **info)
                    b.check(_rows(o.data) == [p for p, _ in rec] and o.data.fitness.ravel().tolist() == [f for _, f in rec], "training changed the recorded data", **info)
                    made.clear()
                    if r.random() < 0.4 or cls is not BO:
                        o.ask()
                        ya = mod.fits[-1][1] if cls is not NoisyBO else mod.predict(o.data)
                        want = float(np.min(ya) if mini else np.max(ya))
                        crit = [(nm, k) for nm, k in made if k.get("model") is mod and "minimize" in k]
                        b.check(crit, "no criterion was built", **info)
                        for nm, k in crit:
                            b.check(k["minimize"] == mini, "direction of the criterion", name=nm, **info)
                            if nm != "UCB":
                                b.check("plugin" in k and abs(float(k["plugin"]) - want) <= 1e-12 * max(1, abs(want)), "the incumbent handed to the criterion is not the best trained value", name=nm, got=k.get("plugin"), want=want, round=t, **info)
            except Exception as e:
                if type(e).__name__ == "FlatFitnessError":
                    continue
                raise
    finally:
        for k_, i_ in orig.items():
            getattr(AF, k_).__init__ = i_


@bounded(P, [MO + "update_model", MO + "y", MO + "tell"], n=600, n_thorough=4800, budget=60, bound="histories of 1-5 reports of 1-5 points with 2-4 objectives, directions mixed, some failed evaluations")
def training_histories_objectives(b):
    import bayes_optim.search_space as S
    from bayes_optim import MOBO
    from contracts import gen

    r = b.py
    for case in b.loop():
        k = r.choice([2, 2, 3, 4])
        sp = gen.space(gen.specs(b.rng, hi=3) + [dict(gen.spec_real(b.rng, scale="linear", precision=None), name="cont")], S)
        mini = r.choice([True, False, [r.random() < 0.5 for _ in range(k)]])
        dirs = [mini] * k if isinstance(mini, bool) else mini
        mod = Surrogate(k)
        o = MOBO(search_space=sp, obj_fun=None, model=mod, n_obj=k, minimize=mini, max_FEs=99, DoE_size=3, acquisition_optimization=AQ)
        rec = []
        scale = [10 ** r.uniform(-3, 5) for _ in range(k)]
        info = dict(minimize=mini)
        for t in range(r.randint(1, 5)):
            n = r.randint(2, 5)
            pts = sp.sample(n).tolist()
            vals = [[r.gauss(0, 1) * scale[c] for c in range(k)] for _ in pts]
            if t and r.random() < 0.3:
                vals[r.randrange(n)][r.randrange(k)] = float("nan")
            o.tell([list(p) for p in pts], [tuple(q) for q in vals])
            rec += [(list(p), q) for p, q in zip(pts, vals) if np.all(np.isfinite(q))]
            X, y = mod.fits[-1]
            b.check(_rows(X) == [p for p, _ in rec], "the model is not trained on exactly the recorded points", got=_rows(X), **info)
            b.check(y.shape == (len(rec), k), "one column per objective", got=y.shape, **info)
            for c in range(k):
                _affine(b, [q[c] for _, q in rec], y[:, c], f"objective {c}", increasing=not dirs[c], **info)
            b.check(_rows(o.data) == [p for p, _ in rec] and o.data.fitness.tolist() == [q for _, q in rec], "training changed the recorded data", **info)


@bounded(P, [EX + "PCABO.tell", EX + "PCABO.update_model", EX + "PCABO._compute_bounds", EX + "PCABO.ask", EX + "LinearTransform.fit", EX + "LinearTransform.transform", EX + "LinearTransform.inverse_transform", EX + "penalized_acquisition"],
         n=300, n_thorough=2400, budget=60, bound="histories of 1-4 reports of 4-8 points in 2-5 dimensions with 1..d components, both directions")
def reduced_histories(b):
    import bayes_optim.extension as E
    import bayes_optim.search_space as S

    r = b.py
    orig = E.GaussianProcess
    made = []

    class GP(Surrogate):
        def __init__(self, **k):
            super().__init__()
            made.append(self)

        def gradient(self, x):
            return np.zeros((np.asarray(x).shape[-1], 1)), np.zeros((np.asarray(x).shape[-1], 1))

    E.GaussianProcess = GP
    try:
        for case in b.loop():
            d = r.randint(2, 5)
            nc = r.randint(1, d)
            lo = [r.uniform(-5, 5) for _ in range(d)]
            bd = [[a, a + r.uniform(0.5, 8)] for a in lo]
            sp = S.RealSpace(bd)
            mini = r.random() < 0.5
            o = E.PCABO(search_space=sp, obj_fun=None, n_components=nc, max_FEs=99, DoE_size=5, n_point=1, minimize=mini, acquisition_optimization=dict(AQ, optimizer=r.choice(["MIES", "BFGS", "OnePlusOne_Cholesky_CMA"])))
            info = dict(bounds=bd, n_components=nc, minimize=mini)
            X0 = o.ask(4)
            b.check(all(l <= x <= u for p in X0 for x, (l, u) in zip(p, bd)), "the first points leave the domain", got=X0, **info)
            rec = []
            for t in range(r.randint(1, 4)):
                pts = [[r.uniform(*q) for q in bd] for _ in range(r.randint(max(4, nc + 1), 8))]
                vals = [r.gauss(0, 1) * 10 + 5 for _ in pts]
                o.tell([list(p) for p in pts], list(vals))
                rec += list(zip(pts, vals))
                b.check(_rows(o.data) == [p for p, _ in rec] and o.data.fitness.ravel().tolist() == [f for _, f in rec], "recorded data", **info)
                Z, y = made[-1].fits[-1]
                b.check(len(made[-1].fits) == 1 and o.model is made[-1], "a model of its own for each transformation", **info)
                A = np.array([p for p, _ in rec], dtype=float)
                want = np.array([np.ravel(o._pca.transform(A[[i]])) for i in range(len(A))])
                Z = np.array(Z.tolist(), dtype=float)
                b.check(Z.shape == (len(rec), nc) and np.allclose(Z, want, atol=1e-9), "the model is not trained on the image of each recorded point", got=Z, want=want, **info)
                _affine(b, [f for _, f in rec], y, "training values", **info)
                C = np.asarray(o._pca.components_, dtype=float)
                b.check(np.allclose(C @ C.T, np.eye(nc), atol=1e-9), "directions are not orthonormal", **info)
                # differences of images are the projections of the differences, and the round trip is the identity
                b.check(np.allclose(Z - Z[0], (A - A[0]) @ C.T, atol=1e-8), "the transformation is not the projection on its directions", **info)
                back = np.asarray(o._pca.inverse_transform(Z), dtype=float)
                b.check(np.allclose(o._pca.transform(back), Z, atol=1e-8), "transforming back and forth is not the identity on the reduced space", **info)
                res = A - back
                b.check(np.allclose(res @ C.T, 0, atol=1e-8), "the point mapped back is not the nearest point of the reduced space", **info)
                if nc == d:
                    b.check(np.allclose(back, A, atol=1e-8), "with all components nothing is lost", **info)
                # the main direction follows the weights: better points count more
                f = np.array([f_ for _, f_ in rec]) * (1 if mini else -1)
                rk = np.argsort(np.argsort(f)) + 1.0
                w = np.log(len(f)) - np.log(rk)
                Xs = (A - A.mean(0)) * (w / w.sum())[:, None]
                U = np.linalg.svd(Xs - Xs.mean(0))[2][:nc]
                b.check(np.allclose(np.abs(np.sum(U * C, axis=1)), 1, atol=1e-5) or np.any(np.diff(np.linalg.svd(Xs - Xs.mean(0))[1]) > -1e-6), "the directions are not those of the recorded points weighted by rank", **info)
                rb = np.array(o._search_space.bounds, dtype=float)
                corners = np.array([[q[r.randrange(2)] for q in bd] for _ in range(12)] + [[r.uniform(*q) for q in bd] for _ in range(6)])
                Zc = o._pca.transform(corners)
                b.check(rb.shape == (nc, 2) and np.all(Zc >= rb[:, 0] - 1e-9) and np.all(Zc <= rb[:, 1] + 1e-9), "a point of the domain is outside of the reduced domain", got=rb, **info)
                x = np.asarray(o.ask(), dtype=float)
                z = o._pca.transform(x)
                b.check(x.shape == (1, d) and np.allclose(np.asarray(o._pca.inverse_transform(z), dtype=float), x, atol=1e-7), "a proposal is not the image of a reduced point", got=x, **info)
    finally:
        E.GaussianProcess = orig


@bounded(P, [RF + "_check_X", RF + "fit", "bayes_optim.search_space.search_space.SearchSpace._set_levels"], n=800, n_thorough=6400, budget=60,
         bound="random mixed spaces of 1-6 variables, levels of every type (strings, numbers, mixed, Booleans, subsets), 2-15 points")
def encodings(b):
    import bayes_optim.search_space as S
    from bayes_optim.solution import Solution
    from bayes_optim.surrogate import RandomForest
    from contracts import gen

    r = b.py
    for case in b.loop():
        ss = gen.specs(b.rng)
        vs = [gen.build(s, S) for s in ss]
        if r.random() < 0.3:
            lv = r.choice([[1, "a", 2.5], [3, 1, 2], ["1", 1, "x"], [0.5, 0.25, 7], [True, "True"]])
            ss.append(dict(type="Discrete", bounds=lv, name="mixed"))
            vs.append(S.Discrete(lv, name="mixed"))
        sp = S.SearchSpace(vs)
        n = r.randint(2, 15)
        pts = sp.sample(n).tolist()
        if r.random() < 0.5:
            pts += [list(r.choice(pts)) for _ in range(3)]
        n = len(pts)
        X = Solution(pts, var_name=sp.var_name)
        y = np.array([r.gauss(0, 1) for _ in pts])
        y0 = y.copy()
        m = RandomForest(levels=sp.levels, n_estimators=7, min_samples_leaf=1, bootstrap=False, max_features=1.0, random_state=r.randint(0, 999))
        m.fit(X, y.reshape(-1, 1) if r.random() < 0.5 else y)
        info = dict(space=str(sp), points=pts)
        b.check(_rows(X) == pts and np.array_equal(y, y0), "training changed the data", **info)
        Z = np.array(np.asarray(m.X).tolist(), dtype=float)
        num = [j for j, s in enumerate(ss) if s["type"] in ("Real", "Integer")]
        cat = [j for j in range(len(ss)) if j not in num]
        width = len(num) + sum(len(gen.subset_levels(ss[j]["bounds"])) if ss[j]["type"] == "Subset" else len(ss[j]["bounds"]) for j in cat)
        b.check(Z.shape == (n, width), "one column per number and one per level", got=Z.shape, want=(n, width), **info)
        cols = [tuple(c) for c in Z.T]
        for j in num:
            b.check(tuple(float(p[j]) for p in pts) in cols, "the values of a numerical variable are lost", variable=ss[j]["name"], **info)
        for j in cat:
            for lv in {(type(p[j]).__name__, p[j]) for p in pts}:
                b.check(tuple(float(type(p[j]).__name__ == lv[0] and p[j] == lv[1]) for p in pts) in cols, "a level has no indicator of its own", variable=ss[j]["name"], level=lv, **info)
        b.check(len(set(map(tuple, Z))) == len({tuple((type(x).__name__ if j in cat else "", x) for j, x in enumerate(p)) for p in pts}), "different points are encoded alike", **info)
        # trees of single-point leaves without resampling: every distinct point keeps its own (mean) value
        pred = m.predict(X)
        for i, p in enumerate(pts):
            w = np.mean([y0[k] for k, q in enumerate(pts) if q == p])
            if len({tuple(np.float32(z)) for z in Z}) == len({tuple(z) for z in Z}):
                b.check(abs(pred[i] - w) < 1e-9 * max(1, abs(w)), "a point is not trained with its own value", i=i, got=pred[i], want=w, **info)
        k = r.randrange(n)
        if len(cat) == 0 or not all(s["type"] == "Subset" for s in ss):
            b.check(abs(float(np.ravel(m.predict([list(pts[k])]))[0]) - pred[k]) < 1e-12, "the prediction of a point depends on the other points asked for", i=k, **info)


# ------------------------------------------------------------------ the criterion on the reduced space
def _excess(d, q, dx):
    def run(v):
        m = v.mod("extension")
        v.split()
        lo, hi = [v.real(f"l{i}") for i in range(d)], [v.real(f"u{i}") for i in range(d)]
        for i in range(d):
            v.assume(lo[i] < hi[i])
        img = v.array("image", d)
        C = v.array("directions", (q, d))
        seen, acq = [], []

        class Pca:
            components_ = C

            def inverse_transform(self, x):
                seen.append(x)
                return img

        val = object()
        z = v.array("z", q)
        r = m.penalized_acquisition(z, acquisition_func=lambda x: acq.append(x) or val, bounds=[[lo[i], hi[i]] for i in range(d)], pca=Pca(), return_dx=dx)
        below = [img[i] < lo[i] for i in range(d)]
        above = [img[i] > hi[i] for i in range(d)]
        out = v.or_(*below, *above)
        v.ensure("the image decides", len(seen) == 1 and v.len(seen[0]) == q)
        v.ensure("the image of the very point", v.and_(*[v.eq(seen[0][i], z[i]) for i in range(q)]))
        if r is val:
            v.ensure("an admissible point has its acquisition value", v.and_(v.not_(out), len(acq) == 1 and acq[0] is z))
            return
        v.ensure("only a point outside is penalized", out)
        p, g = r if dx else (r, None)
        want = 0
        for i in range(d):
            want = want + wrap(z3.If(lift(below[i]), lift(lo[i] - img[i]), z3.If(lift(above[i]), lift(img[i] - hi[i]), z3.RealVal(0))))
        v.ensure("by its total excess", v.eq(p, -want))
        v.ensure("which makes it worse than zero", p < 0)
        if dx:
            for k in range(q):
                s = 0
                for i in range(d):
                    s = s + wrap(z3.If(lift(below[i]), lift(C[k, i]), z3.If(lift(above[i]), lift(-C[k, i]), z3.RealVal(0))))
                v.ensure(f"the gradient is the derivative of the excess ({k})", v.eq(np.ravel(g)[k] if not is_symarray(g) else g.ravel()[k], s))

    return run


for d_, q_ in ((1, 1), (2, 1), (2, 2), (3, 2)):
    for dx_ in (False, True):
        proof(P, [EX + "penalized_acquisition"], name=f"penalized_outside_{d_}_{q_}{'_gradient' if dx_ else ''}", assume=[f"{d_} variables, {q_} components"])(_excess(d_, q_, dx_))
