"""shared: optimizers under contract (symbolic state) and run-time drivers with a stand-in surrogate."""
import numpy as np

from pyvc.verify import *


class Log:
    def info(self, *a):
        pass

    warning = debug = error = info


class Model:
    """stand-in surrogate of the proofs: training and prediction are not under contract here"""

    def __init__(self, fitted=True):
        self.is_fitted = fitted


def optimizer(v, cls, names, n_obj=1, minimize=None, data=None, eval_type="list", **kw):
    o = cls.__new__(cls)
    o.__dict__.update(
        minimize=v.bool("minimize") if minimize is None else minimize, var_names=list(names), n_obj=n_obj, h=None, g=None, _h=None, _g=None,
        model=Model(), logger=Log(), data_file=None, eval_count=v.int("evals", 0), iter_count=v.int("iters", 0), hist_f=[],
        stop_dict={}, ftarget=None, _eval_type=eval_type, max_FEs=v.int("budget", 1), dim=len(names),
    )
    o.__dict__.update(kw)
    if hasattr(o, "_set_aux_vars"):
        o._set_aux_vars()
    if data is not None:
        o.data = data
    return o


def solutions(v, nm, n, names, k=1):
    m = v.mod("solution")
    X = v.array(nm + "X", (n, len(names)), "O")
    F = v.array(nm + "F", (n,) if k == 1 else (n, k))
    E = v.array(nm + "E", (n,), "i")
    Lb = v.seq(nm + "L", n, "U")
    s = m.Solution(X, fitness=F, n_eval=E, index=Lb, var_name=list(names), n_obj=k)
    return s, dict(X=X.copy(), F=F.copy(), E=E.copy(), L=Lb)


# ------------------------------------------------------------------ run-time stand-ins (real package)
class Surrogate:
    """a cheap surrogate with the interface the optimizers use: inverse-distance mean, distance as deviation"""

    def __init__(self, k=1):
        self.is_fitted, self.k, self.fits = False, k, []

    def _enc(self, X):
        out = []
        for row in np.asarray(X, dtype=object).reshape(-1, np.asarray(X, dtype=object).shape[-1]):
            out.append([float(x) if isinstance(x, (int, float, np.integer, np.floating, bool, np.bool_)) else (hash(str(x)) % 97) / 97.0 for x in row])
        return np.array(out, dtype=float)

    def fit(self, X, y):
        self.fits.append((np.array(X, dtype=object), np.array(y, dtype=float)))
        self.Xt, self.yt = self._enc(X), np.array(y, dtype=float).reshape(len(X), -1)
        self.is_fitted = True
        return self

    def predict(self, X, eval_MSE=False):
        Q = self._enc(X)
        D = np.sqrt(((Q[:, None, :] - self.Xt[None, :, :]) ** 2).sum(2))
        W = 1.0 / (D + 1e-6)
        mu = (W @ self.yt) / W.sum(1, keepdims=True)
        if self.k == 1:
            mu = mu[:, :1]
        mse = np.repeat(np.minimum(D.min(1), 3.0)[:, None], mu.shape[1], axis=1) + 1e-4
        return (mu, mse) if eval_MSE else mu


AQ = {"max_FEs": 30, "n_restart": 1, "wait_iter": 2}


def same_point(x, names, row):
    """x: a point as list or dictionary; row: recorded values"""
    vals = [x[n] for n in names] if isinstance(x, dict) else list(x)
    return len(vals) == len(row) and all(a == b_ for a, b_ in zip(vals, row))
