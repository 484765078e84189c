"""C19 surrogate predictions, uncertainties and gradients are those of the trained model."""
import numpy as np

from pyvc.verify import *

P = "C19"
RF = "bayes_optim.surrogate.random_forest."
GPR = "bayes_optim.surrogate.gaussian_process.gpr."
GP_ = GPR + "GaussianProcess."
KER = "bayes_optim.surrogate.gaussian_process.kernel."
TR = "bayes_optim.surrogate.gaussian_process.trend."
SK = "bayes_optim.surrogate.gaussian_process.GaussianProcessSklearn."


# ------------------------------------------------------------------ oracles
def o_corr(name, th, D, nu=1.5):
    """correlation for componentwise distances D (..., d)"""
    D = np.abs(D)
    if name == "squared_exponential":
        return np.exp(-(th * D * D).sum(-1))
    if name == "absolute_exponential":
        return np.exp(-(th * D).sum(-1))
    if name == "cubic":
        t = np.minimum(th * D, 1)
        return np.prod(1 - 3 * t**2 + 2 * t**3, axis=-1)
    q = np.sqrt((th * D * D).sum(-1))
    if nu == 0.5:
        return np.exp(-q)
    if nu == 1.5:
        return (1 + np.sqrt(3) * q) * np.exp(-np.sqrt(3) * q)
    return (1 + np.sqrt(5) * q + 5 * q * q / 3) * np.exp(-np.sqrt(5) * q)


def o_basis(kind, X):
    n, d = X.shape
    cols = [np.ones(n)]
    if kind in ("linear", "quadratic"):
        cols += [X[:, j] for j in range(d)]
    if kind == "quadratic":
        cols += [X[:, i] * X[:, j] for i in range(d) for j in range(i, d)]
    return np.stack(cols, axis=1)


class Posterior:
    """the conditional distribution of a Gaussian process given noisy data, trend estimated (universal Kriging) or fixed"""

    def __init__(self, corr, theta, s2, noise, X, y, kind, beta):
        self.c, self.th, self.s2, self.X, self.kind = corr, theta, s2, X, kind
        K = s2 * o_corr(corr, theta, X[:, None] - X[None]) + noise * np.eye(len(X))
        self.cond = np.linalg.cond(K)
        self.K = K
        F = o_basis(kind, X)
        self.est = beta is None
        if self.est:
            self.A = F.T @ np.linalg.solve(K, F)
            self.cond = max(self.cond, np.linalg.cond(self.A))
            beta = np.linalg.solve(self.A, F.T @ np.linalg.solve(K, y))
        self.F, self.beta = F, beta
        self.res = y - F @ beta
        self.w = np.linalg.solve(K, self.res)

    def __call__(self, Z):
        k = self.s2 * o_corr(self.c, self.th, Z[:, None] - self.X[None])
        f = o_basis(self.kind, Z)
        mu = f @ self.beta + k @ self.w
        Ki = np.linalg.solve(self.K, k.T)
        v = self.s2 - (k.T * Ki).sum(0)
        if self.est:
            u = f.T - self.F.T @ Ki
            v = v + (u * np.linalg.solve(self.A, u)).sum(0)
        return mu, v


def _near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.isfinite(a).all() and bool(np.all(np.abs(a - b) <= tol))


def _quietly(fn):
    import contextlib
    import io
    import warnings

    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        return fn()


class Skip(Exception):
    pass


def _limited(fn, sec=60):
    """fit within a time limit (ill-posed data may take many restarts); a fit that is not done is not judged"""
    import signal

    def h(*a):
        raise Skip()

    old = signal.signal(signal.SIGALRM, h)
    left = signal.alarm(sec)
    try:
        return _quietly(fn)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, left - 1))


def _gp_case(b):
    """a random data set and model"""
    from bayes_optim.surrogate import GaussianProcess, trend

    r, g = b.py, b.rng
    d = r.choice([1, 1, 2, 2, 3])
    n = r.randint(d + 3, 12)
    sc = 10.0 ** r.uniform(-1, 1)
    X = g.uniform(-2, 2, (n, d)) * sc + r.choice([0, 0, 3])
    y = np.sin(X / sc).sum(1) + r.choice([0, 0.1]) * g.randn(n) + r.choice([0, 0.5]) * (X / sc)[:, 0] ** 2
    y = (y - y.mean()) / (y.std() or 1) * r.choice([1, 1, 1, 0.5, 3]) + r.choice([0, 0, 2.0])
    corr = r.choice(["squared_exponential", "absolute_exponential", "matern"])
    kind = r.choice(["none", "fixed", "constant", "constant", "linear", "fixed linear", "quadratic"])
    if kind == "quadratic" and (d + 1) * (d + 2) // 2 + 2 > n:
        kind = "linear"
    mean, beta, basis = None, np.zeros(1), "constant"
    if kind == "fixed":
        beta = np.array([r.uniform(-1, 1)])
        mean = trend.constant_trend(d, beta=r.choice([float(beta[0]), beta]))
    elif kind == "constant":
        mean, beta = trend.constant_trend(d), None
    elif kind == "linear":
        mean, beta, basis = trend.linear_trend(d), None, "linear"
    elif kind == "fixed linear":
        beta, basis = g.uniform(-0.3, 0.3, d + 1), "linear"
        mean = trend.linear_trend(d, beta=beta.copy())
    elif kind == "quadratic":
        mean, beta, basis = trend.quadratic_trend(d), None, "quadratic"
    noise = r.choice([dict(nugget=0), dict(nugget=0), dict(nugget=1e-6), {}, dict(nugget=0.05), dict(nugget=0.5), dict(nugget=0, noise_estim=True), dict(nugget=1e-3, noise_estim=True)])
    lo = 10.0 ** g.uniform(-2, 0, d) / sc
    hi = lo * 10.0 ** g.uniform(0, 2, d)
    kw = dict(mean=mean, corr=corr, thetaL=lo, thetaU=hi, random_start=r.choice([1, 2, 4]), random_state=case_seed(r), **noise)
    if r.random() < 0.3:
        kw["theta0"] = lo * (hi / lo) ** r.random()
    m = GaussianProcess(**kw)
    return m, X, y, corr, basis, beta, noise, lo, hi, sc


def case_seed(r):
    return r.randint(0, 10**6)


def _describe(m, X, y, corr, basis, beta, noise, lo, hi):
    return dict(X=X.tolist(), y=y.tolist(), corr=corr, trend=basis, beta=None if beta is None else np.asarray(beta).tolist(), noise=str(noise), thetaL=lo.tolist(), thetaU=hi.tolist())


def _trained(b):
    m, X, y, corr, basis, beta, noise, lo, hi, sc = _gp_case(b)
    Y = y if b.py.random() < 0.5 else y.reshape(-1, 1)
    X0, y0 = X.copy(), y.copy()
    inp = _describe(m, X, y, corr, basis, beta, noise, lo, hi)
    try:
        _limited(lambda: m.fit(X, Y))
    except Skip:
        b.check(False, "training does not end (within 60 s)", **inp)
    b.check(np.array_equal(X, X0) and np.array_equal(y, y0), "training changes the data of the caller", **inp)
    s2 = np.asarray(m.sigma2, float).ravel()
    nv = np.asarray(m.noise_var, float).ravel()
    b.check(s2.shape == (1,) and nv.shape == (1,) and np.isfinite(s2).all() and np.isfinite(nv).all() and s2[0] > 0 and nv[0] >= 0, "the variances of the process and of the noise are not valid", **inp)
    th = np.asarray(m.theta_, float)
    b.check(th.shape == lo.shape and np.all(th >= lo * (1 - 1e-6)) and np.all(th <= hi * (1 + 1e-6)), "the trained length scales leave their bounds", theta=th.tolist(), **inp)
    po = Posterior(corr, th, s2[0], nv[0], X, y, basis, beta)
    inp.update(theta=th.tolist(), sigma2=float(s2[0]), noise_var=float(nv[0]))
    return m, X, y, corr, basis, beta, noise, po, sc, inp


# ------------------------------------------------------------------ bounded
@bounded(P, [GP_ + "fit", GP_ + "predict", GP_ + "compute_beta_gamma", GP_ + "_compute_aux_var", GP_ + "correlation_matrix", GP_ + "log_likelihood_concentrated", GP_ + "_optimize_hyperparameter", GP_ + "_hyperparameter_bound", GP_ + "_check_data", GP_ + "prior_cov", GPR + "l1_cross_distances"],
         n=500, n_thorough=12000, budget=40,
         bound="4-12 points in 1-3 dimensions; squared exponential, absolute exponential and Matern 3/2 correlation; trend absent, fixed, constant, linear or quadratic; noise absent, given (1e-6 to 0.5) or estimated; condition number up to 1e9")
def posterior(b):
    r, g = b.py, b.rng
    for case in b.loop():
        m, X, y, corr, basis, beta, noise, po, sc, inp = _trained(b)
        if po.cond > 1e9:
            continue
        tol = 1e-14 * po.cond * 100 * (1 + np.abs(y).max()) + 1e-9
        n, d = X.shape
        # variance estimates
        q = float(po.res @ po.w)  # residual sum weighted with the total covariance
        if m.estimation_mode == "noiseless":
            k = po.F.shape[1] if beta is None else 0
            b.check(abs(q - (n - k)) <= (n + 1) * (1e-6 + 1e-14 * po.cond), "noise-free: the process variance is not the (unbiased) residual variance", **inp)
            b.check(float(np.ravel(m.noise_var)[0]) == 0, "noise-free model with noise", **inp)
        elif m.estimation_mode == "noise_estim":
            b.check(abs(q - n) <= (n + 1) * (1e-6 + 1e-14 * po.cond), "estimated noise: the total variance is not the residual variance", **inp)
        else:
            # the given noise, or 1e-5 when the noise-free (or noise-estimating) model could not be trained
            start = noise.get("nugget", 1e-6) if not noise.get("noise_estim") and noise.get("nugget", 1e-6) else 1e-5
            ratio = np.log10(float(np.ravel(m.noise_var)[0]) / start)
            b.check(ratio >= -1e-9 and abs(ratio - round(ratio)) < 1e-6, "the noise variance is not the given one (or raised by factors of ten)", **inp)
            b.check(1e-5 * (1 - 1e-6) <= float(np.ravel(m.sigma2)[0]) <= max(1e-3, y.var()) * (1 + 1e-6), "the process variance leaves its bounds", **inp)
        # likelihood of the trained parameters (log density of the data)
        s, ld = np.linalg.slogdet(po.K)
        ll = -0.5 * (n * np.log(2 * np.pi) + ld + (n if m.estimation_mode != "noisy" else q))
        b.check(abs(float(np.ravel(m.log_likelihood_)[0]) - ll) <= 1e-6 * (1 + abs(ll)) + 1e-13 * po.cond, "the reported likelihood is not that of the trained parameters", reported=float(np.ravel(m.log_likelihood_)[0]), expected=ll, **inp)
        # predictions
        Z = np.r_[g.uniform(X.min(0) - sc / 2, X.max(0) + sc / 2, (r.randint(1, 5), d)), X[[r.randrange(n)]]]
        r.shuffle(idx := list(range(len(Z))))
        Z = Z[idx]
        mu, v = po(Z)
        a = _quietly(lambda: m.predict(Z))
        a2, s2 = _quietly(lambda: m.predict(Z, eval_MSE=True))
        inp["Z"] = Z.tolist()
        b.check(np.shape(a) == (len(Z), 1) and np.shape(s2) == (len(Z), 1) and np.array_equal(a, a2), "one prediction per point, the same with and without uncertainty", **inp)
        b.check(_near(a[:, 0], mu, tol), "the prediction is not the posterior mean", got=a[:, 0].tolist(), expected=mu.tolist(), **inp)
        b.check(np.all(s2 >= 0), "negative uncertainty", **inp)
        b.check(_near(s2[:, 0], np.maximum(v, 0), tol), "the uncertainty is not the posterior variance", got=s2[:, 0].tolist(), expected=v.tolist(), **inp)
        if m.estimation_mode == "noiseless":
            a, s2 = _quietly(lambda: m.predict(X, eval_MSE=True))
            b.check(_near(a[:, 0], y, tol) and _near(s2[:, 0], np.zeros(n), tol), "a noise-free model does not reproduce its data", got=a[:, 0].tolist(), **inp)
        if r.random() < 0.2:
            C = _quietly(lambda: m.prior_cov(Z))
            e = float(np.ravel(m.sigma2)[0]) * o_corr(corr, m.theta_, Z[:, None] - Z[None])
            b.check(_near(C, e, 1e-9 * (1 + e.max())), "the prior covariance", **inp)


@bounded(P, [GP_ + "gradient", GP_ + "Hessian", GP_ + "corr_dx", GP_ + "corr_Hessian", TR + "constant_trend.Jacobian", TR + "linear_trend.Jacobian"],
         n=350, n_thorough=8000, budget=40, bound="as for the posterior, with a constant, linear or fixed trend, at random points and (smooth correlations) at training points; compared with central differences; condition number up to 1e6")
def gradients(b):
    r, g = b.py, b.rng
    for case in b.loop():
        m, X, y, corr, basis, beta, noise, po, sc, inp = _trained(b)
        if po.cond > 1e6 or basis == "quadratic":
            continue
        n, d = X.shape
        x = X[[r.randrange(n)]] if r.random() < 0.25 and corr != "absolute_exponential" else g.uniform(X.min(0), X.max(0), (1, d))
        if corr == "absolute_exponential" and np.abs(x - X).min() < 1e-3 * sc:
            continue
        h = 1e-5 * sc
        E = np.eye(d) * h
        if corr == "matern" and np.abs(x - X).max(1).min() == 0:
            h = 1e-6 * sc
            E = np.eye(d) * h
        mp, vp = zip(*[po(x + e) for e in E])
        mm, vm = zip(*[po(x - e) for e in E])
        gm = (np.ravel(mp) - np.ravel(mm)) / (2 * h)
        gv = (np.ravel(vp) - np.ravel(vm)) / (2 * h)
        dm, dv = _quietly(lambda: m.gradient(x if r.random() < 0.5 else x[0]))
        scale = 1 + np.abs(y).max() + np.abs(gm).max() + np.abs(gv).max()
        tol = (1e-4 * scale + 1e-14 * po.cond * 10 / 1e-5) * max(1, 1 / sc)
        inp["x"] = x.tolist()
        b.check(np.shape(dm) == (d, 1) and np.shape(dv) == (d, 1), "the shape of the gradients", **inp)
        b.check(_near(dm[:, 0], gm, tol), "the gradient of the prediction", got=dm[:, 0].tolist(), differences=gm.tolist(), **inp)
        b.check(_near(dv[:, 0], gv, tol), "the gradient of the uncertainty", got=dv[:, 0].tolist(), differences=gv.tolist(), **inp)
        if corr == "squared_exponential":
            H = _quietly(lambda: m.Hessian(x))
            hd = np.stack([(_quietly(lambda: m.gradient(x + e))[0][:, 0] - _quietly(lambda: m.gradient(x - e))[0][:, 0]) / (2 * h) for e in E])
            b.check(_near(H, hd, (1e-4 * (scale + np.abs(hd).max()) + 1e-14 * po.cond * 10 / 1e-5) * max(1, 1 / sc**2)), "the second derivatives of the prediction", got=np.asarray(H).tolist(), differences=hd.tolist(), **inp)


@bounded(P, [KER + "squared_exponential", KER + "absolute_exponential", KER + "matern", KER + "cubic", KER + "generalized_exponential", GPR + "l1_cross_distances", TR + "constant_trend.F", TR + "linear_trend.F", TR + "quadratic_trend.F", TR + "BasisExpansionTrend.__call__"],
         n=5000, n_thorough=40000, budget=40, bound="1-5 dimensions, 1-8 distances, one or all length scales")
def correlations_and_trends(b):
    from bayes_optim.surrogate.gaussian_process import gpr, kernel, trend

    r, g = b.py, b.rng
    for case in b.loop():
        d, n = r.randint(1, 5), r.randint(1, 8)
        D = np.abs(g.uniform(-3, 3, (n, d)))
        if r.random() < 0.3:
            D[r.randrange(n)] = 0
        th = 10.0 ** g.uniform(-2, 1, d if r.random() < 0.7 else 1)
        inp = dict(theta=th.tolist(), D=D.tolist())
        for name in ("squared_exponential", "absolute_exponential", "matern", "cubic"):
            for nu in (0.5, 1.5, 2.5) if name == "matern" else (1.5,):
                k = _quietly(lambda: getattr(kernel, name)(th.copy(), D.copy(), **(dict(nu=nu) if name == "matern" else {})))
                b.check(_near(k, o_corr(name, th, D, nu), 1e-10), f"correlation {name} {nu}", got=np.asarray(k).tolist(), **inp)
                z = _quietly(lambda: getattr(kernel, name)(th.copy(), np.zeros((2, d)), **(dict(nu=nu) if name == "matern" else {})))
                b.check(_near(z, np.ones(2), 0), f"correlation {name} {nu} at distance zero", **inp)
        p = r.uniform(0.5, 2)
        tg = np.r_[10.0 ** g.uniform(-2, 1, d), p]
        k = _quietly(lambda: kernel.generalized_exponential(tg, D))
        b.check(_near(k, np.exp(-(tg[:-1] * D**p).sum(1)), 1e-10), "correlation generalized_exponential", theta=tg.tolist(), D=D.tolist())
        X, Z = g.uniform(-3, 3, (n + 1, d)), g.uniform(-3, 3, (r.randint(1, 4), d))
        C = gpr.l1_cross_distances(X, Y=Z)
        b.check(_near(C.reshape(len(X), len(Z), d), np.abs(X[:, None] - Z[None]), 0), "the distances between two sets", X=X.tolist(), Z=Z.tolist())
        C, ij = gpr.l1_cross_distances(X)
        b.check(sorted(map(tuple, ij.tolist())) == [(i, j) for i in range(n + 1) for j in range(i + 1, n + 1)], "the pairs of points", got=ij.tolist())
        b.check(_near(C, np.abs(X[ij[:, 0]] - X[ij[:, 1]]), 0), "the distances within a set", X=X.tolist())
        for kind, cls in (("constant", trend.constant_trend), ("linear", trend.linear_trend), ("quadratic", trend.quadratic_trend)):
            if d == 1 and kind == "quadratic" and len(X) < 2:
                continue
            be = g.uniform(-1, 1, o_basis(kind, X).shape[1])
            t = cls(d, beta=be.copy())
            b.check(_near(t.F(X), o_basis(kind, X), 1e-12), f"the basis of the {kind} trend", X=X.tolist())
            b.check(_near(np.ravel(t(X)), o_basis(kind, X) @ be, 1e-10), f"the value of the {kind} trend", X=X.tolist(), beta=be.tolist())
            if kind != "quadratic":
                x = X[:1]
                J = np.stack([(o_basis(kind, x + e) - o_basis(kind, x - e))[0] / 2 for e in np.eye(d)], axis=1)
                b.check(_near(t.Jacobian(x), J, 1e-10), f"the Jacobian of the {kind} trend", x=x.tolist())
                b.check(_near(t.Hessian(x), np.zeros((d, d, len(be))), 0), f"the Hessian of the {kind} trend")


@bounded(P, [GP_ + "_optimize_hyperparameter"], n=1500, n_thorough=12000, budget=30, bound="2-6 restarts of the likelihood maximisation, with a search that returns arbitrary points")
def best_restart(b):
    """the hyperparameters are those of the best restart"""
    from bayes_optim.surrogate import GaussianProcess
    from bayes_optim.surrogate.gaussian_process import gpr

    if not hasattr(gpr, "fmin_l_bfgs_b"):
        return
    r, g = b.py, b.rng
    orig = gpr.fmin_l_bfgs_b
    try:
        for case in b.loop():
            d, n, T = r.randint(1, 3), r.randint(4, 8), r.randint(2, 6)
            X, y = g.uniform(-2, 2, (n, d)), g.randn(n, 1)
            m = GaussianProcess(corr="matern", thetaL=0.1 * np.ones(d), thetaU=10 * np.ones(d), nugget=r.choice([0, 0.1]), random_start=T, wait_iter=T + 1, random_state=1)
            got = []

            def search(f, x0, *a, bounds=None, **k):
                bd = np.asarray(bounds, float)
                x = g.uniform(bd[:, 0], bd[:, 1])
                out = f(x)
                v = float(np.ravel(out[0] if isinstance(out, tuple) else out)[0])
                ok = np.all(np.asarray(x0) >= bd[:, 0] - 1e-9) and np.all(np.asarray(x0) <= bd[:, 1] + 1e-9)
                got.append((x, v, ok, np.array(x0)))
                return x, v, dict(funcalls=1, warnflag=0, task="", nit=1, grad=np.zeros(len(x)))

            gpr.fmin_l_bfgs_b = search
            try:
                _limited(lambda: m.fit(X, y))
            except Skip:
                continue
            if len(got) != T:  # a retry with more noise, or another way to search
                continue
            best = min(got, key=lambda q: q[1])
            inp = dict(X=X.tolist(), y=y.ravel().tolist(), tried=[q[0].tolist() for q in got], likelihoods=[-q[1] for q in got])
            b.check(all(q[2] for q in got), "a search starts outside the bounds", **inp)
            b.check(_near(np.log10(m.theta_), best[0][:d], 1e-9), "the trained hyperparameters are not those of the best search", trained=np.asarray(m.theta_).tolist(), **inp)
    finally:
        gpr.fmin_l_bfgs_b = orig


@bounded(P, [RF + "RandomForest.predict", RF + "RandomForest.fit", RF + "_save_prediction", RF + "SurrogateAggregation.predict"],
         n=60, n_thorough=1500, budget=70, bound="forests of 2-40 trees on 4-25 points of random mixed spaces, one or two outputs, 1-3 threads, 1-12 points to predict; weighted sums of 1-3 models")
def forests(b):
    import bayes_optim.search_space as S
    from bayes_optim.surrogate import RandomForest, SurrogateAggregation
    from contracts import gen

    r, g = b.py, b.rng

    def encode(X, lev):
        rows = []
        for p in X:
            row = [float(p[j]) for j in range(len(p)) if j not in lev]
            for j in sorted(lev):
                row += [1.0 if p[j] == q and type(p[j]) == type(q) else 0.0 for q in lev[j]]
            rows.append(row)
        return np.array(rows)

    for case in b.loop():
        d = r.randint(1, 4)
        lev = {j: r.choice([["a", "b"], ["u", "v", "w"], [1, 2, 5], ["x", 3]]) for j in range(d) if r.random() < 0.35}
        def pt():
            return [r.choice(lev[j]) if j in lev else r.uniform(-2, 2) for j in range(d)]
        n, k = r.randint(4, 25), r.choice([1, 1, 1, 2])
        X = [pt() for _ in range(n)]
        Z = [pt() for _ in range(r.randint(1, 12))]
        if r.random() < 0.2:
            Z[0] = X[0]
        y = g.randn(n, k) * 10.0 ** r.uniform(-2, 2)
        T = r.choice([2, 3, 10, 40])
        mods = []
        for q in range(r.randint(1, 3)):
            m = RandomForest(n_estimators=T, levels=dict(lev), n_jobs=r.choice([None, 1, 2, 3]), random_state=r.randint(0, 999), min_samples_leaf=r.choice([1, 2]))
            yy = y if k > 1 else r.choice([y, y[:, 0]])
            inp = dict(X=X, y=y.tolist(), Z=Z, levels={str(a): c for a, c in lev.items()}, trees=T)
            Xa, Za = np.array(X, dtype=object), np.array(Z, dtype=object)
            _quietly(lambda: m.fit(Xa, yy))
            mods.append(m)
            a = _quietly(lambda: m.predict(Za))
            a2, s = _quietly(lambda: m.predict(Za, eval_MSE=True))
            E = encode(Z, lev).astype(np.float32)
            each = np.array([e.predict(E) for e in m.estimators_])  # trees x points (x outputs)
            mean = each.sum(0) / T
            var = ((each - mean) ** 2).sum(0) / (T - 1)
            tol = 1e-9 * (1 + np.abs(y).max() ** 2)
            b.check(np.shape(a) == mean.shape and np.array_equal(a, a2), "one prediction per point, the same with and without uncertainty", **inp)
            b.check(_near(a, mean, tol), "the prediction is not the average of the trees", got=np.asarray(a).tolist(), expected=mean.tolist(), **inp)
            b.check(_near(s, var, tol), "the uncertainty is not the sample variance of the trees", got=np.asarray(s).tolist(), expected=var.tolist(), **inp)
            one = _quietly(lambda: m.predict(Za[:1]))
            b.check(_near(one, a[:1], tol), "the prediction depends on the other points asked for", **inp)
        if k == 1:
            w = g.uniform(0, 1, len(mods)) if r.random() < 0.7 else g.uniform(-1, 1, len(mods))
            ag = SurrogateAggregation(mods, aggregation="WS", weights=w.tolist() if r.random() < 0.5 else w)
            ps = [_quietly(lambda: m.predict(Za, eval_MSE=True)) for m in mods]
            a = _quietly(lambda: ag.predict(Za))
            a2, s = _quietly(lambda: ag.predict(Za, eval_MSE=True))
            em = sum(wi * p[0] for wi, p in zip(w, ps))
            es = sum(wi**2 * p[1] for wi, p in zip(w, ps))
            b.check(_near(np.ravel(a), em, tol) and _near(np.ravel(a2), em, tol), "a weighted sum of models: prediction", weights=w.tolist(), **inp)
            b.check(_near(np.ravel(s), es, tol), "a weighted sum of models: uncertainty", weights=w.tolist(), **inp)


@bounded(P, [SK + "fit", SK + "predict", SK + "gradient", SK + "kernel_dx"], n=60, n_thorough=480, budget=50, bound="6-10 points in 1-3 dimensions, 1-2 objectives; gradients against central differences")
def sklearn_models(b):
    from bayes_optim.search_space import RealSpace
    from bayes_optim.surrogate.gaussian_process import GaussianProcessSklearn

    r, g = b.py, b.rng
    for case in b.loop():
        d, k, n = r.randint(1, 3), r.choice([1, 2]), r.randint(6, 10)
        X = g.uniform(-2, 3, (n, d))
        y = np.c_[np.sin(X).sum(1) * 3 + 5, np.cos(X).sum(1) * 0.3][:, :k] + 0.05 * g.randn(n, k)
        m = GaussianProcessSklearn(RealSpace([[-2, 3]] * d), n_obj=k, n_restarts_optimizer=1)
        yy = y[:, 0] if k == 1 and r.random() < 0.5 else y
        try:
            _limited(lambda: m.fit(X, yy))
        except Skip:
            continue
        Z = g.uniform(-2, 3, (r.randint(1, 4), d))
        inp = dict(X=X.tolist(), y=y.tolist(), Z=Z.tolist())
        a = _quietly(lambda: m.predict(Z))
        a2, s = _quietly(lambda: m.predict(Z, eval_MSE=True))
        b.check(np.shape(a) == (len(Z), k) and _near(a, a2, 1e-12), "one prediction per point and objective", **inp)
        skip = False
        for i in range(k):
            gp = m._gprs[i]
            K = gp.kernel_(X) + 1e-8 * np.eye(n)
            if np.linalg.cond(K) > 1e8:
                skip = True
                continue
            yn = (y[:, i] - y[:, i].mean()) / y[:, i].std()
            kx = gp.kernel_(Z, X)
            mu = y[:, i].mean() + y[:, i].std() * (kx @ np.linalg.solve(K, yn))
            v = y[:, i].var() * (gp.kernel_.diag(Z) - (kx.T * np.linalg.solve(K, kx.T)).sum(0))
            b.check(_near(a[:, i], mu, 1e-5), "the prediction is not the posterior mean", objective=i, got=a[:, i].tolist(), expected=mu.tolist(), **inp)
            b.check(_near(s[:, i], np.maximum(v, 0), 1e-5), "the uncertainty is not the posterior variance", objective=i, got=s[:, i].tolist(), expected=v.tolist(), **inp)
        if skip:
            continue
        dm, dv = _quietly(lambda: m.gradient(Z))
        b.check(np.shape(dm) == (k, len(Z), d) and np.shape(dv) == (k, len(Z), d), "the shape of the gradients", **inp)
        h = 1e-5
        for c in range(d):
            e = np.eye(d)[c] * h
            p, q = _quietly(lambda: m.predict(Z + e, eval_MSE=True)), _quietly(lambda: m.predict(Z - e, eval_MSE=True))
            gm, gv = (p[0] - q[0]) / 2 / h, (p[1] - q[1]) / 2 / h
            b.check(_near(dm[:, :, c].T, gm, 1e-3 * (1 + np.abs(gm).max())), "the gradient of the prediction", got=dm.tolist(), **inp)
            b.check(_near(dv[:, :, c].T, gv, 1e-3 * (1 + np.abs(gv).max())), "the gradient of the uncertainty", got=dv.tolist(), **inp)


# ------------------------------------------------------------------ proofs
def _sum(xs):
    t = xs[0]
    for q in xs[1:]:
        t = t + q
    return t


def _kernel(name, d, iso):
    def body(v):
        m = v.mod("surrogate.gaussian_process.kernel")
        n = v.int("n", 1)
        D = v.array("D", (n, d))
        th = [v.real(f"t{i}", gt=0) for i in range(1 if iso else d)]
        T = lambda j: th[0 if iso else j]
        if name == "matern":
            K = m.matern(m.np.array(th), D)
        else:
            K = getattr(m, name)(m.np.array(th), D)
        i = v.generic(n)
        v.ensure("one correlation per distance", v.eq(K.shape[0], n))
        dd = [v.at(D, i, j) for j in range(d)]
        k = v.at(K, i)
        np_ = m.np
        if name == "absolute_exponential":
            q = _sum([T(j) * abs(dd[j]) for j in range(d)])
            v.ensure("the correlation", v.eq(k, np_.exp(-q)))
        elif name == "squared_exponential":
            q = _sum([T(j) * (dd[j] * dd[j]) for j in range(d)])
            v.ensure("the correlation", v.eq(k, np_.exp(-q)))
        elif name == "matern":
            import math

            q = math.sqrt(3) * np_.sqrt(_sum([T(j) * (dd[j] * dd[j]) for j in range(d)]))
            v.ensure("the correlation", v.eq(k, (1 + q) * np_.exp(-q)))
        elif name == "cubic":
            want = None
            for j in range(d):
                q = T(j) * abs(dd[j])
                if q > 1:
                    q = 1.0
                f = 1 - q * q * (3 - 2 * q)
                want = f if want is None else want * f
            v.ensure("the correlation", v.eq(k, want))
        v.ensure("a point is perfectly correlated with itself", v.implies(v.and_(*[v.eq(x, 0) for x in dd]), v.eq(k, 1)))

    return body


for _k in ("squared_exponential", "absolute_exponential", "matern", "cubic"):
    for _d in (1, 2, 3) if _k != "cubic" else (1, 2):
        for _iso in (True, False) if _d > 1 else (True,):
            proof(P, [KER + _k], name=f"{_k}_{_d}{'_isotropic' if _iso and _d > 1 else ''}", timeout=10000)(_kernel(_k, _d, _iso))


def _trend(kind, d):
    def body(v):
        m = v.mod("surrogate.gaussian_process.trend")
        n = v.int("n", 1)
        # a square transposed input would be taken as it is; the number of points differs from one-row ambiguity only
        X = v.array("X", (n, d))
        be = [v.real(f"b{j}") for j in range({"constant": 1, "linear": d + 1, "quadratic": (d + 1) * (d + 2) // 2}[kind])]
        t = getattr(m, kind + "_trend")(d, beta=be)
        F = t.F(X)
        i = v.generic(n)
        v.ensure("one row per point, one column per basis function", v.and_(v.eq(F.shape[0], n), F.shape[1] == len(be)))
        cols = [1.0] + ([v.at(X, i, j) for j in range(d)] if kind != "constant" else []) + ([v.at(X, i, a) * v.at(X, i, c) for a in range(d) for c in range(a, d)] if kind == "quadratic" else [])
        for j, c in enumerate(cols):
            v.ensure(f"basis function {j}", v.eq(v.at(F, i, j), c))
        y = t(X)
        v.ensure("the value of the trend", v.eq(v.at(y, i, 0), _sum([b * c for b, c in zip(be, cols)])))
        if kind == "quadratic":  # its derivatives are not implemented
            return
        x = v.array("x", (1, d))
        J = t.Jacobian(x)
        for a in range(len(be)):
            for j in range(d):
                v.ensure(f"derivative of basis function {a} in direction {j}", v.eq(v.at(J, a, j), 1.0 if a == j + 1 else 0.0))

    return body


for _k in ("constant", "linear", "quadratic"):
    for _d in (1, 2, 3) if _k != "quadratic" else (1, 2):
        proof(P, [TR + _k + "_trend.F"] + ([TR + _k + "_trend.Jacobian"] if _k != "quadratic" else []) + [ TR + "BasisExpansionTrend.__call__", TR + "BasisExpansionTrend.check_input", TR + "BasisExpansionTrend.beta"], name=f"{_k}_trend_{_d}", timeout=10000)(_trend(_k, _d))


def _forest(T, k):
    def body(v):
        m = v.mod("surrogate.random_forest")
        n = v.int("n", 1)
        X = v.array("X", (n, 2))
        tree = [v.array(f"tree{t}", (n,) if k == 1 else (n, k)) for t in range(T)]
        seen = []

        class Tree:
            def __init__(self, t):
                self.t = t

            def predict(self, A, check_input=True):
                seen.append(A)
                return tree[self.t]

        class Par:
            def __init__(self, **kw):
                pass

            def __call__(self, jobs):
                for f, a, kw in jobs:
                    f(*a, **kw)

        o = m.RandomForest.__new__(m.RandomForest)
        o.n_estimators, o.n_jobs, o.verbose, o.n_outputs_ = T, None, 0, k
        o.estimators_ = [Tree(t) for t in range(T)]
        v.stub(m, "check_is_fitted", lambda *a, **kw: None)
        v.stub(m, "Parallel", Par)
        v.stub(m, "delayed", lambda f: lambda *a, **kw: (f, a, kw))
        v.stub(m, "_partition_estimators", lambda *a: (1, None, None))
        v.stub(m.RandomForest, "_validate_X_predict", lambda self, A: A)
        i = v.generic(n)
        for mse in (True, False):
            seen.clear()
            out = o.predict(X, eval_MSE=mse)
            y, s = out if mse else (out, None)
            v.ensure(f"every tree predicts the points once ({mse})", len(seen) == T and all(A is X for A in seen))
            v.ensure(f"one prediction per point ({mse})", v.eq(y.shape[0], n))
            for c in range(k):
                ix = (i,) if k == 1 else (i, c)
                e = [v.at(t, *ix) for t in tree]
                mu = _sum(e) / T
                v.ensure(f"the prediction is the average of the trees ({mse}, {c})", v.eq(v.at(y, *ix), mu))
                if mse:
                    v.ensure(f"the uncertainty is the sample variance of the trees ({c})", v.eq(v.at(s, *ix), _sum([(q - mu) * (q - mu) for q in e]) / (T - 1)))

    return body


for _T, _k in ((2, 1), (3, 1), (3, 2), (5, 1)):
    proof(P, [RF + "RandomForest.predict", RF + "_save_prediction"], name=f"forest_{_T}_trees_{_k}", timeout=15000, assume=["joblib's Parallel runs every delayed call once; sklearn's trees and validation are external"])(_forest(_T, _k))


def _aggregate(k):
    def body(v):
        m = v.mod("surrogate.random_forest")
        n = v.int("n", 1)
        X = v.array("X", (n, 2))
        mu = [v.array(f"mu{t}", n) for t in range(k)]
        se = [v.array(f"se{t}", n) for t in range(k)]
        w = [v.real(f"w{t}") for t in range(k)]

        class M:
            def __init__(self, t):
                self.t = t

            def predict(self, A, eval_MSE=False):
                assert A is X
                return (mu[self.t], se[self.t]) if eval_MSE else mu[self.t]

        o = m.SurrogateAggregation([M(t) for t in range(k)], aggregation="WS", weights=w)
        i = v.generic(n)
        a = o.predict(X)
        a2, s = o.predict(X, eval_MSE=True)
        e = _sum([w[t] * v.at(mu[t], i) for t in range(k)])
        v.ensure("the prediction is the weighted sum", v.eq(v.at(a, i), e))
        v.ensure("the same prediction with uncertainty", v.eq(v.at(a2, i), e))
        v.ensure("the uncertainty is the sum weighted with the squares", v.eq(v.at(s, i), _sum([w[t] * w[t] * v.at(se[t], i) for t in range(k)])))

    return body


for _k in (1, 2, 3):
    proof(P, [RF + "SurrogateAggregation.predict", RF + "SurrogateAggregation.__init__"], name=f"aggregation_{_k}", timeout=15000, assume=["the models' errors are independent (their variances add)"])(_aggregate(_k))


# -- Gaussian process regression: the algebra, for every factor, data and correlation vector of a fixed number of points
def _solve(A, B, lower=False, **kw):
    """scipy.linalg.solve_triangular: forward (lower) or backward substitution; reads one triangle only"""
    B = symnp.to_symarray(B)
    one = B.ndim == 1
    N, M = A.shape[0], 1 if one else B.shape[1]
    a = lambda i, j: lift(A._at(z3.IntVal(i), z3.IntVal(j)))
    bb = lambda i, j: lift(B._at(z3.IntVal(i)) if one else B._at(z3.IntVal(i), z3.IntVal(j)))
    cols = []
    for j in range(M):
        x = {}
        for i in range(N) if lower else range(N - 1, -1, -1):
            t = bb(i, j)
            for q in x:
                t = t - a(i, q) * x[q]
            x[i] = t / a(i, i)
        cols.append(x)
    if one:
        return _mat([[cols[0][i]] for i in range(N)])[:, 0]
    return _mat([[cols[j][i] for j in range(M)] for i in range(N)])


def _mat(rows):
    rows = [[lift(q) for q in row] for row in rows]
    R, C = len(rows), len(rows[0])

    def el(i, j):
        e = rows[-1][-1]
        for a in range(R - 1, -1, -1):
            for c in range(C - 1, -1, -1):
                e = z3.If(z3.And(i == a, j == c), rows[a][c], e)
        return z3.simplify(e)

    return SymArray._make((R, C), el, "f")


class Flat:
    def __init__(self, M):
        self.M = M

    def reshape(self, *a):
        return self.M


def _lower(v, N, nm="C"):
    c = [[v.real(f"{nm}{i}{j}") if j <= i else 0.0 for j in range(N)] for i in range(N)]
    for i in range(N):
        v.assume(c[i][i] > 0)
    return c


def _gp(v, m, N, d, est, p=1):
    """a trained model in terms of free quantities: the factor C, the data in the factor's coordinates, an orthonormal Q"""
    o = m.GaussianProcess.__new__(m.GaussianProcess)
    o.X, o.y = v.array("X", (N, d)), v.array("yy", (N, 1))
    o.theta_ = v.array("theta", d)
    o.estimate_trend, o.mean_type = est, "basis_expansion"
    s2, nv = v.real("sigma2", gt=0), v.real("noise", lo=0)
    o.sigma2, o.noise_var = m.np.array([s2]), m.np.array([nv])
    C = _lower(v, N)
    o.C = _mat(C)
    v.stub(m, "solve_triangular", _solve)
    v.stub(m, "check_array", lambda A, *a, **k: A)
    v.stub(m, "l1_cross_distances", lambda *a, **k: None)
    v.stub(m.GaussianProcess, "_check_params", lambda self: None)
    return o, s2, nv, C


class Trend:
    def __init__(self, v, d, fv, J, beta):
        self.fv, self.J, self.beta, self.v = fv, J, beta, v

    def F(self, X):
        return _mat([[self.fv]])

    def Jacobian(self, x):
        return _mat([self.J])

    def __call__(self, X):
        return _mat([[self.fv * self.beta]])


def _mul(A, x):
    return [_sum([a * q for a, q in zip(row, x)]) for row in A]


def _T(A):
    return [list(r) for r in zip(*A)]


def _ratio(v, m, o):
    """the share of the process in the variance, as a number of its own (its value is the proof `signal_ratio`)"""
    c = v.real("c", gt=0, hi=1)
    if hasattr(m.GaussianProcess, "_signal_ratio"):
        v.stub(m.GaussianProcess, "_signal_ratio", lambda self: c)
        return c
    return m.np.ravel(o.sigma2 / (o.sigma2 + o.noise_var))[0]


@proof(P, [GP_ + "_signal_ratio"])
def signal_ratio(v):
    m = v.mod("surrogate.gaussian_process.gpr")
    if not hasattr(m.GaussianProcess, "_signal_ratio"):
        raise Unsupported("no _signal_ratio")
    o = m.GaussianProcess.__new__(m.GaussianProcess)
    s2, nv = v.real("sigma2", gt=0), v.real("noise", lo=0)
    o.sigma2 = m.np.array([s2])
    for o.noise_var in (m.np.array([nv]), nv):
        v.ensure("the share of the process in the total variance", v.eq(o._signal_ratio() * (s2 + nv), s2))
    o.noise_var = 0
    v.ensure("no noise", v.eq(o._signal_ratio(), 1))


def _predict(N, est):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        o, s2, nv, C = _gp(v, m, N, 1, est)
        c = _ratio(v, m, o)
        w = [v.real(f"w{i}") for i in range(N)]
        t = _mul(_T(C), w)
        k = _mul(C, t)  # the correlations to the training points, R w with R = C C'
        o.corr = lambda th, dx: Flat(_mat([k]))
        ga = [v.real(f"g{i}") for i in range(N)]
        o.gamma = _mat([[q] for q in ga])
        f, be = v.real("f"), v.real("beta")
        o.mean = Trend(v, 1, f, None, be)
        rt = [v.real(f"rt{i}") for i in range(N)]
        for i in range(N):
            v.assume(v.eq(rt[i], c * t[i]))
        if est:
            F = [v.real(f"F{i}") for i in range(N)]
            g = v.real("g", gt=0)
            v.assume(v.eq(g * g, _sum([q * q for q in F])))  # G'G = Ft'Ft
            o.Ft, o.G = _mat([[q] for q in F]), _mat([[g]])
        one = []

        def solve(A, B, lower=False, **kw):
            if A.shape[0] == N and not one and lower:
                one.append(1)
                for i in range(N):
                    v.lemma(f"C^-1 r = c C^-1 k {i}", v.eq(_sum([v.at(A, i, q) * (c * t[q]) for q in range(i + 1)]), v.at(B, i, 0)))
                return _mat([[q] for q in rt])
            return _solve(A, B, lower)

        x = v.array("x", (1, 1))
        y0 = o.predict(x)
        v.stub(m, "solve_triangular", solve)
        y, s = o.predict(x, eval_MSE=True)
        e = f * be + c * _sum([a * q for a, q in zip(k, ga)])
        v.ensure("the prediction: the trend and the weighted correlations, scaled with the share of the process", v.eq(v.at(y, 0, 0), e))
        v.ensure("the same without uncertainty", v.eq(v.at(y0, 0, 0), e))
        kw_ = v.real("kRk")
        v.assume(v.eq(kw_, _sum([a * b for a, b in zip(k, w)])))
        rr = v.real("rr")
        v.assume(v.eq(rr, _sum([a * a for a in rt])))
        tt = v.real("tt")
        v.assume(v.eq(tt, _sum([a * a for a in t])))
        v.lemma("k' R^-1 k = |C^-1 k|^2", v.eq(kw_, tt))
        v.lemma("|c C^-1 k|^2", v.eq(rr, c * c * tt))
        q = 1 - c * kw_
        if est:
            u, B = v.real("u"), v.real("A")
            v.assume(v.eq(u, c * _sum([a * b for a, b in zip(F, t)]) - f))  # F' R^-1 r - f
            v.assume(v.eq(B, g * g))
            q = q + u * u / B / c
        r = v.at(s, 0, 0)
        v.ensure("the uncertainty is the posterior variance, at least zero", v.and_(v.implies(q >= 0, v.eq(r, s2 * q)), v.implies(q < 0, v.eq(r, 0.0))))

    return body


for _N in (1, 2):
    for _e in (False, True):
        proof(P, [GP_ + "predict", GP_ + "_signal_ratio"], name=f"prediction_{_N}_points_{'estimated' if _e else 'known'}_trend", timeout=30000,
              assume=["scipy's solve_triangular is substitution over the reals", "sklearn's check_array returns its argument", f"one point to predict, {_N} training points; correlations are arbitrary numbers"])(_predict(_N, _e))


def _factors(N, est):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        o, s2, nv, C = _gp(v, m, N, 1, est)
        Yt = [v.real(f"y{i}") for i in range(N)]
        y = _mul(C, Yt)
        R = [[_sum([C[i][q] * C[j][q] for q in range(N)]) for j in range(N)] for i in range(N)]
        o.y = _mat([[q] for q in y])
        v.stub(m, "cholesky", lambda A, lower=False: o.C if lower else _mat(_T(C)))
        be0 = v.real("beta0")
        Fv = None
        if est:
            q = [v.real(f"q{i}") for i in range(N)]
            v.assume(v.eq(_sum([a * a for a in q]), 1))
            g = v.real("g")
            v.assume(v.not_(v.eq(g, 0)))
            Fv = _mul(C, [a * g for a in q])
            o.F = _mat([[a] for a in Fv])

            class LA:
                @staticmethod
                def qr(A, mode=None):
                    for i in range(N):
                        v.lemma(f"the factored matrix is C^-1 F {i}", v.eq(v.at(A, i, 0), q[i] * g))
                    return _mat([[a] for a in q]), _mat([[g]])

            v.stub(m, "linalg", LA)
            tr = type("M", (), {})()
        else:
            Fv = [v.real(f"F{i}") for i in range(N)]

            class M:
                beta = be0

                def __call__(self, X):
                    return _mat([[a * be0] for a in Fv])

            tr = M()
        o.mean = tr
        L, Ft, Y, Q, G, rho = o._compute_aux_var(_mat(R))
        o.C, o.Yt, o.rho, o.G, o.Q, o.Ft = L, Y, rho, G, Q, Ft
        o.compute_beta_gamma()
        ga = [v.at(o.gamma, i, 0) for i in range(N)]
        be = v.at(o.mean.beta, 0, 0) if est else be0
        for i in range(N):
            v.ensure(f"the weights solve R w = y - F beta {i}", v.eq(_mul(R, ga)[i], y[i] - Fv[i] * be))
        if est:
            v.ensure("the estimated trend: the generalized least-squares equation F' R^-1 (y - F beta) = 0", v.eq(_sum([a * b for a, b in zip(Fv, ga)]), 0.0))

    return body


for _N in (1, 2, 3):
    for _e in (False, True):
        if _N == 3 and _e:
            continue
        proof(P, [GP_ + "_compute_aux_var", GP_ + "compute_beta_gamma"], name=f"weights_{_N}_points_{'estimated' if _e else 'known'}_trend", timeout=45000,
              assume=["scipy's cholesky: L L' = R, lower; qr: Q G = Ft with orthonormal Q; solve_triangular is substitution over the reals", f"{_N} training points"])(_factors(_N, _e))


def _gradient(N, est):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        o, s2, nv, C = _gp(v, m, N, 1, est)
        c = _ratio(v, m, o)
        t = [v.real(f"t{i}") for i in range(N)]
        td = [v.real(f"d{i}") for i in range(N)]
        k, kd = _mul(C, t), _mul(C, td)
        o.corr = lambda th, dx: Flat(_mat([k]))
        v.stub(m.GaussianProcess, "corr_dx", lambda self, *a, **kw: _mat([kd]))
        ga = [v.real(f"g{i}") for i in range(N)]
        o.gamma = _mat([[q] for q in ga])
        f, fd, be = v.real("f"), v.real("fd"), v.real("beta")
        o.mean = Trend(v, 1, f, [fd], _mat([[be]]))
        B = v.real("Ainv", gt=0)
        if est:
            F = [v.real(f"F{i}") for i in range(N)]
            A = _sum([q * q for q in F])
            v.assume(v.eq(A * B, 1))
            o.Ft = _mat([[q] for q in F])

            class LA:
                @staticmethod
                def inv(M):
                    v.lemma("the inverse of F' R^-1 F", v.eq(v.at(M, 0, 0) * B, 1))
                    return _mat([[B]])

            v.stub(m, "linalg", LA)
        n = []

        def solve(S, R, lower=False, **kw):
            X = (t, td)[len(n)] if len(n) < 2 else None
            if X is None or not lower:
                return _solve(S, R, lower)
            n.append(1)
            for i in range(N):
                v.lemma(f"C^-1 r and C^-1 r' ({len(n)}, {i})", v.eq(_sum([v.at(S, i, q) * (c * X[q]) for q in range(i + 1)]), v.at(R, i, 0)))
            return _mat([[c * q] for q in X])

        v.stub(m, "solve_triangular", solve)
        x = v.array("x", (1, 1))
        dy, dv = o.gradient(x)
        v.ensure("the gradient of the prediction", v.eq(v.at(dy, 0, 0), be * fd + c * _sum([a * b for a, b in zip(ga, kd)])))
        # the variance as a function of a step h along the direction: V(h) = s2 (1 - |C^-1 r|^2 / c + (F' C^-1 r - f)^2 / (A c)), r = c (k + h k'), f = f + h f'
        # its derivative at h = 0, times c / (2 s2):
        e = -_sum([c * a * (c * b) for a, b in zip(t, td)])
        if est:
            e = e + (_sum([a * c * b for a, b in zip(F, t)]) - f) * B * (_sum([a * c * b for a, b in zip(F, td)]) - fd)
        E = v.real("E")
        v.assume(v.eq(E, e))
        v.ensure("the gradient of the uncertainty", v.eq(v.at(dv, 0, 0) * c, 2 * s2 * E))
        h = v.real("h")

        def V(h):
            q = c - _sum([c * (a + h * b) * (c * (a + h * b)) for a, b in zip(t, td)])
            if est:
                u = _sum([a * (c * (x + h * y)) for a, x, y in zip(F, t, td)]) - (f + h * fd)
                q = q + u * u * B
            return q

        cur = -_sum([c * b * (c * b) for b in td])
        if est:
            ud = _sum([a * c * b for a, b in zip(F, td)]) - fd
            cur = cur + ud * ud * B
        v.ensure("which is the derivative: c V(h) / s2 = c V(0) / s2 + 2 h E + h^2 (...)", v.eq(V(h) - V(0), 2 * h * e + h * h * cur))

    return body


for _N in (1, 2, 3):
    for _e in (False, True):
        if _N == 3 and _e:
            continue
        proof(P, [GP_ + "gradient", GP_ + "_signal_ratio"], name=f"derivative_{_N}_points_{'estimated' if _e else 'known'}_trend", timeout=30000,
              assume=["solve_triangular and inv over the reals", f"one dimension, {_N} training points; the derivatives of the correlations are arbitrary numbers"])(_gradient(_N, _e))


def _distances(N, d):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        v.stub(m, "check_array", lambda A, *a, **k: A)
        X = v.array("X", (N, d))
        D, ij = m.l1_cross_distances(X)
        pairs = [(i, j) for i in range(N) for j in range(i + 1, N)]
        v.ensure("one distance per pair", v.and_(v.eq(D.shape[0], len(pairs)), v.eq(ij.shape[0], len(pairs))))
        for q, (i, j) in enumerate(pairs):
            v.ensure(f"pair {q}", v.and_(v.eq(v.at(ij, q, 0), i), v.eq(v.at(ij, q, 1), j)))
            for c in range(d):
                v.ensure(f"distance {q} {c}", v.eq(v.at(D, q, c), abs(v.at(X, i, c) - v.at(X, j, c))))
        o = m.GaussianProcess.__new__(m.GaussianProcess)
        o.X, o.D, o.ij = X, D, ij
        r = v.array("r", len(pairs))
        th = object()
        o.corr = lambda t, A: r if t is th and A is D else None
        v.stub(m.np, "eye", symnp.eye)
        R = o.correlation_matrix(th)
        for i in range(N):
            v.ensure(f"unit diagonal {i}", v.eq(v.at(R, i, i), 1.0))
        for q, (i, j) in enumerate(pairs):
            v.ensure(f"correlation of the pair {q}", v.and_(v.eq(v.at(R, i, j), v.at(r, q)), v.eq(v.at(R, j, i), v.at(r, q))))

    return body


for _N, _d in ((2, 1), (3, 2), (4, 1)):
    proof(P, [GPR + "l1_cross_distances", GP_ + "correlation_matrix"], name=f"correlation_matrix_{_N}", timeout=15000, assume=["sklearn's check_array returns its argument"])(_distances(_N, _d))


def _corr_dx(name, d, N):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        import contextlib

        class W:
            @staticmethod
            def catch_warnings():
                return contextlib.nullcontext()

            @staticmethod
            def filterwarnings(*a):
                pass

        v.stub(m, "warnings", W)
        o = m.GaussianProcess.__new__(m.GaussianProcess)
        X = v.array("X", (N, d))
        th = v.array("theta", d)
        for j in range(d):
            v.assume(v.at(th, j) > 0)
        o.X, o.theta_, o.corr_type = X, th, name
        x = v.array("x", (1, d))
        r = v.array("r", (1, N))
        g = o.corr_dx(x, X=X, r=r)
        for k in range(N):
            dif = [v.at(x, 0, j) - v.at(X, k, j) for j in range(d)]
            for j in range(d):
                t = v.at(th, j)
                if name == "squared_exponential":
                    e = -2 * t * dif[j] * v.at(r, 0, k)
                elif name == "absolute_exponential":
                    sg = SymNum(z3.If(lift(dif[j]) > 0, z3.RealVal(1), z3.If(lift(dif[j]) < 0, z3.RealVal(-1), z3.RealVal(0))))
                    e = -t * sg * v.at(r, 0, k)
                else:
                    D = m.np.sqrt(_sum([v.at(th, q) * (dif[q] * dif[q]) for q in range(d)]))
                    e = -3 * t * dif[j] * m.np.exp(-m.np.sqrt(3) * D)
                v.ensure(f"the derivative of the correlation to point {k} in direction {j}", v.eq(v.at(g, j, k), e))

    return body


for _k in ("squared_exponential", "absolute_exponential", "matern"):
    for _d, _N in ((1, 2), (2, 2), (3, 2)):
        proof(P, [GP_ + "corr_dx"], name=f"derivative_of_{_k}_{_d}", timeout=15000, assume=["warnings are not raised (over the reals there is no overflow)"])(_corr_dx(_k, _d, _N))


def _corr_hessian(d, N):
    """second derivatives of the squared exponential correlation, and of the prediction"""

    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        import contextlib

        class W:
            @staticmethod
            def catch_warnings():
                return contextlib.nullcontext()

            @staticmethod
            def filterwarnings(*a):
                pass

        v.stub(m, "warnings", W)
        o = m.GaussianProcess.__new__(m.GaussianProcess)
        X = v.array("X", (N, d))
        th = v.array("theta", d)
        for j in range(d):
            v.assume(v.at(th, j) > 0)
        o.X, o.theta_, o.corr_type = X, th, "squared_exponential"
        x = v.array("x", (1, d))
        r = v.array("r", (1, N))
        H = o.corr_Hessian(x, X=X, r=r)
        for k in range(N):
            dif = [v.at(x, 0, j) - v.at(X, k, j) for j in range(d)]
            for i in range(d):
                for j in range(d):
                    # r = exp(-sum theta dif^2): r_i = -2 theta_i dif_i r, r_ij = 4 theta_i dif_i theta_j dif_j r - 2 theta_i [i = j] r
                    e = 4 * v.at(th, i) * dif[i] * v.at(th, j) * dif[j] * v.at(r, 0, k)
                    if i == j:
                        e = e - 2 * v.at(th, i) * v.at(r, 0, k)
                    v.ensure(f"second derivative {i} {j} of the correlation to point {k}", v.eq(v.at(H, i, j, k), e))

    return body


for _d, _N in ((1, 2), (2, 2), (3, 2)):
    proof(P, [GP_ + "corr_Hessian"], name=f"second_derivative_of_squared_exponential_{_d}", timeout=15000, assume=["warnings are not raised (over the reals there is no overflow)"])(_corr_hessian(_d, _N))


def _hessian(kind, d, N):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        tm = v.mod("surrogate.gaussian_process.trend")
        o = m.GaussianProcess.__new__(m.GaussianProcess)
        o.X, o.theta_ = v.array("X", (N, d)), v.array("theta", d)
        c = v.real("c", gt=0, hi=1)
        if not hasattr(m.GaussianProcess, "_signal_ratio"):
            raise Unsupported("no _signal_ratio")
        v.stub(m.GaussianProcess, "_signal_ratio", lambda self: c)
        D, r, K = object(), v.array("r", N), v.array("K", (d, d, N))
        x = v.array("x", (1, d))
        seen = []
        v.stub(m, "l1_cross_distances", lambda A, Y=None: (seen.append((A, Y)), D)[1])
        o.corr = lambda th, A: r if th is o.theta_ and A is D else None

        def second(self, y, X=None, theta=None, r=None, **kw):
            v.lemma("the correlations of the point", v.and_(*[v.eq(v.at(r, 0, k), v.at(o.corr(o.theta_, D), k)) for k in range(N)]))
            v.lemma("derivatives at the point", v.and_(*[v.eq(v.at(y, 0, j), v.at(x, 0, j)) for j in range(d)]))
            v.lemma("with respect to the training points", X is None or X is o.X)
            return K

        v.stub(m.GaussianProcess, "corr_Hessian", second)
        ga = v.array("gamma", (N, 1))
        o.gamma = ga
        t = getattr(tm, kind + "_trend")(d)
        p = 1 if kind == "constant" else d + 1
        t._beta = v.array("beta", (p, 1))
        o.mean = t
        H = o.Hessian(x)
        v.ensure("distances between the point and the training points", len(seen) == 1 and seen[0][1] is o.X)
        v.ensure("one number per pair of directions", v.and_(len(H.shape) == 2, v.eq(H.shape[0], d), v.eq(H.shape[1], d)))
        for i in range(d):
            for j in range(d):
                # the trend is (piecewise) linear: its second derivatives are zero
                v.ensure(f"second derivative {i} {j} of the prediction", v.eq(v.at(H, i, j), c * _sum([v.at(K, i, j, k) * v.at(ga, k, 0) for k in range(N)])))

    return body


for _k in ("constant", "linear"):
    for _d, _N in ((1, 2), (2, 2), (3, 3)):
        proof(P, [GP_ + "Hessian", TR + _k + "_trend.Hessian"], name=f"second_derivative_{_k}_trend_{_d}", timeout=15000, assume=["corr_Hessian follows its own contract"])(_hessian(_k, _d, _N))


def _likelihood(mode, N):
    def body(v):
        m = v.mod("surrogate.gaussian_process.gpr")
        import contextlib

        class W:
            @staticmethod
            def catch_warnings():
                return contextlib.nullcontext()

            @staticmethod
            def filterwarnings(*a):
                pass

        v.stub(m, "warnings", W)
        v.stub(m.np, "eye", symnp.eye)
        v.stub(m.np, "diag", lambda A: SymArray._make((A.shape[0],), lambda i: A._at(i, i), "f"))
        v.stub(m, "log", m.np.log)
        o = m.GaussianProcess.__new__(m.GaussianProcess)
        o.X, o.y = v.array("X", (N, 1)), v.array("y", (N, 1))
        R0, L, rho = v.array("R0", (N, N)), v.array("L", (N, N)), v.array("rho", (N, 1))
        for i in range(N):
            v.assume(v.at(L, i, i) > 0)
        th, ex = v.real("theta", gt=0), v.real("extra", gt=0, lt=1)
        nv = v.real("nv", gt=0)
        o.noise_var = m.np.array([nv])
        o.estimation_mode = mode
        seen, asked = [], []
        v.stub(m.GaussianProcess, "correlation_matrix", lambda self, t, X=None: asked.append(t) or R0)
        v.stub(m.GaussianProcess, "_compute_aux_var", lambda self, R: seen.append(R) or (L, None, "Yt", None, None, rho))
        env = {}
        par = m.np.array([th] if mode == "noiseless" else [th, ex])
        q = _sum([v.at(rho, i, 0) * v.at(rho, i, 0) for i in range(N)])
        v.assume(q > 0)
        out = o.log_likelihood_concentrated(par, env)
        v.ensure("the correlations of the given length scales", len(asked) == 1 and len(asked[0]) == 1 and v.eq(v.at(asked[0], 0), th))
        R = seen[0]
        for i in range(N):
            for j in range(N):
                r0 = v.at(R0, i, j)
                e = 1.0 if i == j else 0.0
                if mode == "noiseless":
                    want = v.eq(v.at(R, i, j), r0)
                elif mode == "noise_estim":
                    want = v.eq(v.at(R, i, j), ex * r0 + (1 - ex) * e)
                else:
                    want = v.eq(v.at(R, i, j) * (ex + nv), ex * r0 + nv * e)
                v.ensure(f"the matrix of the correlations and the noise {i}{j}", want)
        ld = _sum([m.np.log(v.at(L, i, i)) for i in range(N)])
        tot = q / N if mode != "noisy" else ex + nv
        ll = -0.5 * (N * m.np.log(2.0 * m.pi * tot) + 2.0 * ld + (N if mode != "noisy" else q / tot))
        if not env:
            v.ensure("rejected only when the likelihood exceeds one", ll > 0)
            v.ensure("a rejected likelihood", out == float("-inf"))
            return
        v.ensure("the likelihood", v.eq(out, ll))
        s2 = v.at(env["sigma2"], 0)
        n0 = env["noise_var"]
        n0 = v.at(n0, 0) if hasattr(n0, "shape") and len(n0.shape) else n0
        if mode == "noiseless":
            v.ensure("the process variance", v.and_(v.eq(s2, tot), v.eq(n0, 0)))
        elif mode == "noise_estim":
            v.ensure("the variances of the process and of the noise", v.and_(v.eq(s2, ex * tot), v.eq(n0, (1 - ex) * tot)))
        else:
            v.ensure("the variances of the process and of the noise", v.and_(v.eq(s2, ex), v.eq(n0, nv)))
        v.ensure("the factors are kept", env["C"] is L and env["rho"] is rho)

    return body


for _m in ("noiseless", "noise_estim", "noisy"):
    proof(P, [GP_ + "log_likelihood_concentrated"], name=f"likelihood_{_m}", timeout=15000, assume=["a known trend; two training points; logarithms are uninterpreted"])(_likelihood(_m, 2))
