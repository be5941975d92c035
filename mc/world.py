"""Worlds of shared objects and the operations on them, for exploring histories (C14) and interleavings (C15).

A world holds distributions and arrays. An operation is a function of the world; `kind` is "call" (must not change
anything), "sample" (a call that takes a seed) or "plot". A write changes one parameter of one object the way a user
would, by assignment or in place; the model state of a world is the tuple of variants the writes have selected.
"""

import math

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc.bcast import CALLS

SEED = 42


def is_dist(x):
    return hasattr(x, "__dataclass_fields__")


def norm(x, depth=0):
    """comparable form of any result"""
    if isinstance(x, BaseException):
        return ("raised", type(x).__name__)
    if is_dist(x):
        return ("object", type(x).__name__, tuple((k, norm(getattr(x, k, "missing"))) for k in x.__dataclass_fields__))
    if x is None or isinstance(x, (bool, np.bool_, str)):
        return ("value", x if not isinstance(x, np.bool_) else bool(x))
    if isinstance(x, (int, float, np.generic)):
        return ("number", float(x))
    if isinstance(x, dict):
        return ("dict", tuple((k, norm(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)) and not all(isinstance(v, (int, float, np.generic)) for v in x):
        return ("list", tuple(norm(v) for v in x))
    a = np.asarray(x)
    if a.dtype == object or a.dtype.kind in "US":
        return ("values", tuple(norm(v) for v in a.ravel()))
    a = a.astype(float) if a.dtype != bool else a.astype(float)
    return ("array", a.shape, tuple(float(v) for v in a.ravel()))


def same(a, b, tol=1e-9):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= tol * max(abs(a), abs(b), 1e-300)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return a == b


def attempt(f, w):
    try:
        return norm(f(w))
    except Exception as e:
        return norm(e)


class Op:
    def __init__(self, name, f, kind="call"):
        self.name, self.f, self.kind = name, f, kind


class Write:
    """select variant `to` of item `item`; apply(w) changes the world"""

    def __init__(self, name, item, to, apply):
        self.name, self.item, self.to, self.apply = name, item, to, apply


class World:
    """make(variants) -> dict of shared objects; items: number of variants of each item"""

    def __init__(self, name, make, items, writes, ops):
        self.name, self.make, self.items, self.writes, self.ops = name, make, items, writes, ops


def snapshot(w):
    out = []
    for k, v in w.items():
        if is_dist(v):
            for f in v.__dataclass_fields__:
                a = getattr(v, f, "missing")
                out.append((k, f, type(a).__name__, norm(a), getattr(getattr(a, "flags", None), "writeable", None)))
            # attributes a result could depend on: nothing but the plot bounds may appear
        else:
            out.append((k, type(v).__name__, norm(v), getattr(getattr(v, "flags", None), "writeable", None), str(getattr(v, "dtype", ""))))
    return tuple(out)


POINTS = {"unit": [0.125, 0.5, 0.875], "count": [0, 1, 3], "positive": [0.5, 1.25, 4.0], "real": [-1.5, 0.25, 2.0]}

# class -> (scalar parameters, vector parameters, points, further scalar parameters for the writes)
UNI = {
    "Beta": (dict(alpha=2.5, beta=4.0), dict(alpha=[1.0, 2.5, 30.0], beta=[2.0, 0.5, 4.0]), "unit"),
    "Binomial": (dict(n=12, p=0.25), dict(n=[12, 5, 30], p=[0.25, 0.5, 0.875]), "count"),
    "Exponential": (dict(lam=0.75), dict(lam=[0.75, 2.0, 5.0]), "positive"),
    "Gamma": (dict(alpha=2.5, beta=4.0), dict(alpha=[1.0, 2.5, 30.0], beta=[2.0, 0.5, 4.0]), "positive"),
    "NegativeBinomial": (dict(n=3.0, p=0.25), dict(n=[3.0, 1.0, 7.0], p=[0.25, 0.5, 0.875]), "count"),
    "Hypergeometric": (dict(N=20, k=8, n=6), dict(N=[20, 30, 40], k=[8, 5, 11], n=[6, 7, 4]), "count"),
    "Poisson": (dict(lam=2.25), dict(lam=[2.25, 0.5, 7.0]), "count"),
    "BetaBinomial": (dict(n=12, alpha=2.5, beta=4.0), dict(n=[12, 5, 30], alpha=[1.0, 2.5, 30.0], beta=[2.0, 0.5, 4.0]), "count"),
    "BetaNegativeBinomial": (dict(n=3, alpha=2.5, beta=4.0), dict(n=[3, 5, 2], alpha=[1.5, 2.5, 30.0], beta=[2.0, 0.5, 4.0]), "count"),
    "Geometric": (dict(p=0.25), dict(p=[0.25, 0.5, 0.875]), "count"),
    "BetaGeometric": (dict(alpha=2.5, beta=4.0), dict(alpha=[1.5, 2.5, 30.0], beta=[2.0, 0.5, 4.0]), "count"),
    "Normal": (dict(mu=1.5, sigma=2.0), dict(mu=[1.5, -2.0, 0.25], sigma=[2.0, 1.0, 0.5]), "real"),
    "Uniform": (dict(low=-1.0, high=3.0), dict(low=[-1.0, 0.5, 0.0], high=[3.0, 2.0, 1.0]), "real"),
    "Pareto": (dict(x_m=0.5, alpha=2.5), dict(x_m=[0.5, 0.25, 0.75], alpha=[2.5, 3.0, 7.0]), "positive"),
    "InverseGamma": (dict(alpha=2.5, beta=4.0), dict(alpha=[1.0, 2.5, 30.0], beta=[2.0, 0.5, 4.0]), "positive"),
    "StudentT": (dict(mu=1.5, sigma=2.0, nu=3.5), dict(mu=[1.5, -2.0, 0.25], sigma=[2.0, 1.0, 0.5], nu=[3.5, 1.0, 9.0]), "real"),
    "Lomax": (dict(alpha=2.5, lam=4.0), dict(alpha=[1.5, 2.5, 30.0], lam=[2.0, 0.5, 4.0]), "positive"),
    "CompoundGamma": (dict(alpha=2.5, beta=4.0, lam=1.5), dict(alpha=[1.5, 2.5, 30.0], beta=[2.0, 0.5, 4.0], lam=[1.5, 1.0, 0.5]), "positive"),
    "VonMises": (dict(mu=0.5, kappa=2.0), dict(mu=[0.5, -1.0, 0.0], kappa=[2.0, 0.5, 4.0]), "real"),
    "ScaledInverseChiSquared": (dict(nu=3.5, sigma2=2.0), dict(nu=[3.5, 1.0, 9.0], sigma2=[2.0, 1.0, 0.5]), "positive"),
    "LogNormal": (dict(mu=0.5, sigma=0.75), dict(mu=[0.5, -1.0, 0.0], sigma=[0.75, 0.5, 1.5]), "positive"),
    "Weibull": (dict(beta=1.5, theta=2.0), dict(beta=[1.5, 0.75, 3.0], theta=[2.0, 0.5, 4.0]), "positive"),
    "NormalInverseGamma": (dict(mu=1.5, nu=2.0, alpha=3.5, beta=4.0), dict(mu=[1.5, -2.0, 0.25], nu=[2.0, 1.0, 0.5], alpha=[3.5, 1.0, 9.0], beta=[4.0, 2.0, 0.5]), None),
    "NormalGamma": (dict(mu=1.5, lam=2.0, alpha=3.5, beta=4.0), dict(mu=[1.5, -2.0, 0.25], lam=[2.0, 1.0, 0.5], alpha=[3.5, 1.0, 9.0], beta=[4.0, 2.0, 0.5]), None),
    "GammaProportional": (dict(p=2.0, q=0.5, r=3.0, s=2.5), dict(p=[2.0, 1.0, 3.0], q=[0.5, 1.0, 2.0], r=[3.0, 2.0, 2.5], s=[2.5, 7.0, 3.0]), "positive"),
    "GammaKnownRateProportional": (dict(a=2.0, b=3.0, c=2.5), dict(a=[2.0, 1.0, 3.0], b=[3.0, 2.0, 2.5], c=[2.5, 7.0, 3.0]), "positive"),
    "BetaProportional": (dict(p=0.5, q=0.25, k=3.0), dict(p=[0.5, 0.25, 0.75], q=[0.25, 0.5, 0.125], k=[3.0, 2.0, 4.0]), "positive"),
    "VonMisesKnownConcentration": (dict(a=2.0, b=0.5), dict(a=[2.0, 1.0, 0.25], b=[0.5, 1.5, 4.0]), "real"),
    "VonMisesKnownDirectionProportional": (dict(c=2.0, r=1.5), dict(c=[2.0, 3.0, 9.0], r=[1.5, 0.5, 4.0]), "positive"),
}
DISCRETE = {"Binomial", "NegativeBinomial", "Hypergeometric", "Poisson", "BetaBinomial", "BetaNegativeBinomial", "Geometric", "BetaGeometric"}
LIK = {"GammaProportional", "GammaKnownRateProportional", "BetaProportional", "VonMisesKnownConcentration", "VonMisesKnownDirectionProportional"}


def alter(v):
    """another valid value of a parameter"""
    if isinstance(v, list):
        return [alter(x) for x in v]
    return v + 1 if isinstance(v, int) else v * 0.75


def log_likelihood(cls, o, pts):
    f = o.log_likelihood if hasattr(o, "log_likelihood") else o.approx_log_likelihood
    if cls in ("GammaProportional", "BetaProportional"):
        return f(pts, pts[::-1])
    if cls == "GammaKnownRateProportional":
        return f(pts, beta=1.5)
    return f(pts)


def lines(ax):
    return [(np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float), l.get_label() if not str(l.get_label()).startswith("_") else None) for l in ax.lines]


def figure():
    from matplotlib.figure import Figure

    return Figure().add_subplot()


def bounds_of(o):
    def get(k):
        try:
            return getattr(o, k)
        except ValueError:
            return "not set"

    return [get("min_value"), get("max_value")]


def plot_op(o, lo, hi, how, **kw):
    def f(w):
        kw_ = {k: w[v] if v in w else v for k, v in kw.items()}
        ax = figure()
        getattr(w[o].set_bounds(lo, hi), how)(ax=ax, **kw_)
        return lines(ax)

    return f


def univariate(cls):
    sp, vp, where = UNI[cls]
    C = getattr(D, cls)
    pts = POINTS[where] if where else None
    items = {}
    for k in sp:
        items[f"s.{k}"] = 2
        items[f"v.{k}"] = 2
    scalars = {k: [sp[k], alter(sp[k])] for k in sp}
    vectors = {k: [vp[k], alter(vp[k])] for k in sp}
    calls = [c for c in CALLS.values() if c.cls == cls]

    def data_of(c):
        return {a: [np.array(c.args[a][:3], dtype=float if any(isinstance(v, float) for v in c.args[a][:3]) else int), c.args[a][0]] for a in c.args}

    def make(var=()):
        var = dict(var)
        w = {
            "s": C(**{k: scalars[k][var.get(f"s.{k}", 0)] for k in sp}),
            "v": C(**{k: np.array(vectors[k][var.get(f"v.{k}", 0)]) for k in sp}),
            "l": C(**{k: np.array([vp[k][1]]) for k in sp}),
            "mask": np.array([True, False, True]),
            "idx": np.array([2, 0]),
            "factor": np.array([2.0, 3.0, 0.5]),
            "labels": ["a", "b", "c"],
            "colors": ["r", "g", "b"],
        }
        if pts:
            w["pts"] = np.array(pts)
        for c in calls:
            for a, (arr, _) in data_of(c).items():
                w[f"{c.fn}.{a}"] = arr
        return w

    writes = []
    for k in sp:
        def set_s(w, k=k):
            setattr(w["s"], k, scalars[k][1])

        def set_v(w, k=k):
            setattr(w["v"], k, np.array(vectors[k][1]))

        def in_v(w, k=k):
            getattr(w["v"], k)[...] = vectors[k][1]

        def back(w, k=k):
            setattr(w["s"], k, scalars[k][0])

        writes += [Write(f"s.{k} = {scalars[k][1]}", f"s.{k}", 1, set_s), Write(f"v.{k} = array", f"v.{k}", 1, set_v),
                   Write(f"v.{k}[...] = array", f"v.{k}", 1, in_v), Write(f"s.{k} = {scalars[k][0]}", f"s.{k}", 0, back)]
    ops = []
    for c in calls:
        def scalar(w, c=c, o="s"):
            return getattr(M, c.fn)(**{c.target: w[o]}, **{a: d[1] for a, d in data_of(c).items()}, **c.const)

        def array(w, c=c, o="v"):
            return getattr(M, c.fn)(**{c.target: w[o]}, **{a: w[f"{c.fn}.{a}"] for a in c.args}, **c.const)

        n = c.fn + str(c.const or "")
        ops.append(Op(f"{n}(s, numbers)", scalar))
        ops.append(Op(f"{n}(v, arrays)", array))
        if c.args:
            ops.append(Op(f"{n}(s, arrays)", lambda w, f=array: f(w, o="s")))
            ops.append(Op(f"{n}(v, numbers)", lambda w, f=scalar: f(w, o="v")))
    has_dist = hasattr(C, "dist")
    if has_dist:
        den = "pmf" if cls in DISCRETE else "pdf"
        logden = "logpmf" if cls in DISCRETE else "logpdf"
        for o in "sv":
            ops.append(Op(f"{o}.dist.{den}(pts)", lambda w, o=o: getattr(w[o].dist, den)(w["pts"])))
            ops.append(Op(f"{o}.dist.cdf(pts)", lambda w, o=o: w[o].dist.cdf(w["pts"])))
            if cls not in ("BetaGeometric", "CompoundGamma", "VonMises"):
                ops.append(Op(f"{o}.dist.mean()", lambda w, o=o: w[o].dist.mean()))
            if cls not in ("VonMises",) and not (cls in ("BetaGeometric", "CompoundGamma") and o == "v"):
                size = {"s": 4, "v": 3}[o]
                ops.append(Op(f"{o}.dist.rvs(seed)", lambda w, o=o, size=size: w[o].dist.rvs(size=size, random_state=SEED), "sample"))
        if hasattr(C, "__getitem__"):
            ops.append(Op("v[1].dist", lambda w: getattr(w["v"][1].dist, den)(w["pts"])))
            ops.append(Op("s.plot", plot_op("s", 0.25 if cls not in DISCRETE else 0, 4.25 if cls not in DISCRETE else 4, f"plot_{den}", label="x"), "plot"))
            ops.append(Op("v.plot", plot_op("v", 0.25 if cls not in DISCRETE else 0, 4.25 if cls not in DISCRETE else 4, f"plot_{den}", color="colors", label="labels"), "plot"))
            ops.append(Op("bounds of other objects", lambda w: [bounds_of(w["l"]), bounds_of(C(**sp)), bounds_of(w["v"][1])]))
            ops.append(Op("v.plot_cdf", plot_op("v", 0.25 if cls not in DISCRETE else 0, 4.25 if cls not in DISCRETE else 4, "plot_cdf"), "plot"))
    if hasattr(C, "__getitem__"):
        ops.append(Op("v[1]", lambda w: w["v"][1]))
        ops.append(Op("v[mask]", lambda w: w["v"][w["mask"]]))
        ops.append(Op("v[idx]", lambda w: w["v"][w["idx"]]))
        ops.append(Op("v[1:]", lambda w: w["v"][1:]))
        ops.append(Op("l[0]", lambda w: w["l"][0]))
        ops.append(Op("v[5]", lambda w: w["v"][5]))
        ops.append(Op("v.params", lambda w: w["v"].params))
    if hasattr(C, "__mul__"):
        ops.append(Op("s * 3", lambda w: w["s"] * 3))
        ops.append(Op("0.5 * s", lambda w: 0.5 * w["s"]))
        ops.append(Op("v * factor", lambda w: w["v"] * w["factor"]))
        ops.append(Op("factor * v", lambda w: w["factor"] * w["v"]))
    if hasattr(C, "__add__"):
        ops.append(Op("s + v", lambda w: w["s"] + w["v"]))
        ops.append(Op("v + v", lambda w: w["v"] + w["v"]))
    if cls in LIK:
        ops.append(Op("s.log_likelihood", lambda w: log_likelihood(cls, w["s"], w["pts"])))
    if cls in ("NormalInverseGamma", "NormalGamma"):
        for how in ("sample_variance", "sample_mean", "sample_beta"):
            ops.append(Op(f"s.{how}(seed)", lambda w, how=how: getattr(w["s"], how)(size=3, random_state=SEED), "sample"))
        ops.append(Op("s.sample_mean(generator)", lambda w: w["s"].sample_mean(size=2, return_variance=True, random_state=np.random.default_rng(SEED)), "sample"))
    if cls == "NormalInverseGamma":
        ops.append(Op("v.inverse_gamma", lambda w: w["v"].inverse_gamma))
        ops.append(Op("from_inverse_gamma", lambda w: C.from_inverse_gamma(mu=w["v"].mu, inverse_gamma=w["v"].inverse_gamma, nu=w["v"].nu)))
    if cls == "NormalGamma":
        ops.append(Op("v.gamma", lambda w: w["v"].gamma))
    if cls == "ScaledInverseChiSquared":
        ops.append(Op("v.to_inverse_gamma()", lambda w: w["v"].to_inverse_gamma()))
        ops.append(Op("round trip", lambda w: C.from_inverse_gamma(w["v"].to_inverse_gamma())))
    if cls == "InverseGamma":
        ops.append(Op("ScaledInverseChiSquared.from_inverse_gamma(v)", lambda w: D.ScaledInverseChiSquared.from_inverse_gamma(w["v"])))
        ops.append(Op("NormalInverseGamma.from_inverse_gamma(v)", lambda w: D.NormalInverseGamma.from_inverse_gamma(mu=w["factor"], inverse_gamma=w["v"], nu=w["factor"])))
    if cls == "Beta":
        ops.append(Op("from_mean", lambda w: C.from_mean(mean=w["pts"], alpha=w["v"].alpha)))
        ops.append(Op("uninformative", lambda w: C.uninformative()))
        ops.append(Op("from_successes_and_failures", lambda w: C.from_successes_and_failures(w["factor"], w["v"].beta)))
    if cls == "Normal":
        ops.append(Op("from_mean_and_variance", lambda w: C.from_mean_and_variance(w["v"].mu, w["factor"])))
        ops.append(Op("from_mean_and_precision", lambda w: C.from_mean_and_precision(w["v"].mu, w["factor"])))
    if cls == "Gamma":
        ops.append(Op("from_occurrences", lambda w: C.from_occurrences_in_intervals(w["v"].alpha, w["factor"])))
    return World(cls, make, items, writes, ops)


# -- worlds of matrices -------------------------------------------------------------------------------

MU2, MU2B = [1.0, -0.5], [0.5, 2.0]
S2, S2B = [[2.0, 0.5], [0.5, 1.0]], [[1.5, -0.25], [-0.25, 3.0]]
ROWS2 = [[1.0, 2.0], [0.5, -1.0], [2.0, 0.0], [-1.0, 1.5]]


def matrix_world(name, cls, params, data, ops, extra=None):
    """params: field -> [value, other value]"""
    C = getattr(D, cls)

    def val(v):
        return np.array(v) if isinstance(v, list) else v

    def make(var=()):
        var = dict(var)
        w = {"s": C(**{k: val(v[var.get(f"s.{k}", 0)]) for k, v in params.items()})}
        w.update({k: (np.array(v) if not (isinstance(v, tuple)) else list(v)) for k, v in data.items()})
        for k, f in (extra or {}).items():
            w[k] = f()
        return w

    writes = []
    for k, v in params.items():
        def assign(w, k=k, v=v):
            setattr(w["s"], k, val(v[1]))

        writes.append(Write(f"s.{k} = {v[1]}", f"s.{k}", 1, assign))
        if isinstance(v[1], list):
            def inplace(w, k=k, v=v):
                getattr(w["s"], k)[...] = v[1]

            writes.append(Write(f"s.{k}[...] = {v[1]}", f"s.{k}", 1, inplace))
    return World(name, make, {f"s.{k}": 2 for k in params}, writes, ops)


def sampling_ops():
    out = []
    for how in ("sample_variance", "sample_mean"):
        out.append(Op(f"s.{how}(seed)", lambda w, how=how: getattr(w["s"], how)(size=3, random_state=SEED), "sample"))
    out.append(Op("s.sample_mean(generator)", lambda w: w["s"].sample_mean(size=2, return_variance=True, random_state=np.random.default_rng(SEED)), "sample"))
    return out


def matrices():
    W = []
    X = {"X": ROWS2, "y": [1.0, 2.5, -1.0, 0.5], "Xn": ROWS2[:2]}
    W.append(matrix_world(
        "linear_regression", "NormalInverseGamma", {"mu": [MU2, MU2B], "delta_inverse": [S2, S2B], "alpha": [2.5, 3.5], "beta": [1.5, 4.0]}, X,
        [Op("linear_regression", lambda w: M.linear_regression(X=w["X"], y=w["y"], prior=w["s"])),
         Op("linear_regression_predictive", lambda w: M.linear_regression_predictive(distribution=w["s"], X=w["Xn"])),
         Op("sequential", lambda w: M.linear_regression(X=w["X"], y=w["y"], prior=M.linear_regression(X=w["X"], y=w["y"], prior=w["s"]))),
         Op("inverse_gamma", lambda w: w["s"].inverse_gamma), *sampling_ops(),
         Op("s.sample_beta(seed)", lambda w: w["s"].sample_beta(size=2, return_variance=True, random_state=SEED), "sample")]))
    W.append(matrix_world(
        "MultivariateNormal", "MultivariateNormal", {"mu": [MU2, MU2B], "cov": [S2, S2B]}, {"x_bar": ROWS2[0], "known": S2B, "pts": ROWS2[:2], "idx": [1, 0]},
        [Op("known_covariance", lambda w: M.multivariate_normal_known_covariance(n=4, x_bar=w["x_bar"], cov=w["known"], prior=w["s"])),
         Op("known_covariance_predictive", lambda w: M.multivariate_normal_known_covariance_predictive(distribution=w["s"], cov=w["known"])),
         Op("known_precision", lambda w: M.multivariate_normal_known_precision(n=4, x_bar=w["x_bar"], precision=w["known"], prior=w["s"])),
         Op("known_precision_predictive", lambda w: M.multivariate_normal_known_precision_predictive(distribution=w["s"], precision=w["known"])),
         Op("s.dist.logpdf", lambda w: w["s"].dist.logpdf(w["pts"])), Op("s[0]", lambda w: w["s"][0]), Op("s[idx]", lambda w: w["s"][w["idx"]]),
         Op("s[1:]", lambda w: w["s"][1:]), Op("s.dist.rvs(seed)", lambda w: w["s"].dist.rvs(size=2, random_state=SEED), "sample")]))
    W.append(matrix_world(
        "InverseWishart", "InverseWishart", {"nu": [4.5, 6.0], "psi": [S2, S2B]}, {"X": ROWS2, "mu": MU2},
        [Op("known_mean", lambda w: M.multivariate_normal_known_mean(X=w["X"], mu=w["mu"], prior=w["s"])),
         Op("s.dist.logpdf", lambda w: w["s"].dist.logpdf(np.eye(2))),
         Op("from_inverse_wishart", lambda w: D.NormalInverseWishart.from_inverse_wishart(mu=w["mu"], kappa=2.0, inverse_wishart=w["s"])),
         Op("s.dist.rvs(seed)", lambda w: w["s"].dist.rvs(size=2, random_state=SEED), "sample")]))
    W.append(matrix_world(
        "NormalInverseWishart", "NormalInverseWishart", {"mu": [MU2, MU2B], "kappa": [2.0, 3.0], "nu": [4.5, 6.0], "psi": [S2, S2B]}, {"X": ROWS2},
        [Op("multivariate_normal", lambda w: M.multivariate_normal(X=w["X"], prior=w["s"])),
         Op("multivariate_normal_predictive", lambda w: M.multivariate_normal_predictive(distribution=w["s"])),
         Op("predictive[0]", lambda w: M.multivariate_normal_predictive(distribution=w["s"])[0]),
         Op("predictive.dist", lambda w: M.multivariate_normal_predictive(distribution=w["s"]).dist.logpdf(w["X"])),
         Op("inverse_wishart", lambda w: w["s"].inverse_wishart), *sampling_ops()]))
    W.append(matrix_world("NormalWishart", "NormalWishart", {"mu": [MU2, MU2B], "lam": [2.0, 3.0], "W": [S2, S2B], "nu": [4.5, 6.0]}, {},
                          [Op("wishart", lambda w: w["s"].wishart), *sampling_ops(), Op("wishart.dist", lambda w: w["s"].wishart.dist.logpdf(np.eye(2)))]))
    W.append(matrix_world(
        "MultivariateStudentT", "MultivariateStudentT", {"mu": [MU2, MU2B], "sigma": [S2, S2B], "nu": [4.5, 6.0]}, {"pts": ROWS2[:2], "idx": [1, 0], "mask": [True, False]},
        [Op("s.dist.logpdf", lambda w: w["s"].dist.logpdf(w["pts"])), Op("s[0]", lambda w: w["s"][0]), Op("s[idx]", lambda w: w["s"][w["idx"]]),
         Op("s[mask]", lambda w: w["s"][w["mask"]]), Op("s.dist.rvs(seed)", lambda w: w["s"].dist.rvs(size=2, random_state=SEED), "sample")]))

    def dplot(w, label="x", **kw):
        ax = figure()
        w["s"].plot_pdf(ax=ax, samples=20, random_state=SEED, label=label, **kw)
        return lines(ax)

    W.append(matrix_world(
        "Dirichlet", "Dirichlet", {"alpha": [[1.0, 2.5, 4.0], [2.0, 0.5, 3.0]]}, {"x": [3, 0, 2], "X": [[3, 0, 2], [1, 1, 1]], "xl": (3, 0, 2), "labels": ("a", "b", "c"), "colors": ("r", "g", "b")},
        [Op(f"{fn}({x})", lambda w, fn=fn, x=x: getattr(M, fn)(x=w[x], prior=w["s"])) for fn in ("categorical_dirichlet", "multinomial_dirichlet") for x in ("x", "xl")]
        + [Op("categorical_dirichlet_predictive", lambda w: M.categorical_dirichlet_predictive(distribution=w["s"])),
           Op("multinomial_dirichlet_predictive", lambda w: M.multinomial_dirichlet_predictive(distribution=w["s"], n=3)),
           Op("predictive.dist", lambda w: M.multinomial_dirichlet_predictive(distribution=w["s"], n=5).dist.logpmf(w["x"])),
           Op("s.dist.mean()", lambda w: w["s"].dist.mean()), Op("s.dist.rvs(seed)", lambda w: w["s"].dist.rvs(size=2, random_state=SEED), "sample"),
           Op("uninformative", lambda w: D.Dirichlet.uninformative(n=3)), Op("s.plot", dplot, "plot"),
           Op("s.plot(labels)", lambda w: dplot(w, w["labels"], color=w["colors"]), "plot")],))
    W.append(matrix_world("DirichletMatrix", "Dirichlet", {"alpha": [[[1.0, 2.5, 4.0], [0.5, 1.0, 9.0]], [[2.0, 0.5, 3.0], [1.0, 1.0, 2.0]]]}, {"X": [[3, 0, 2], [1, 1, 1]]},
                          [Op("multinomial_dirichlet(X)", lambda w: M.multinomial_dirichlet(x=w["X"], prior=w["s"])),
                           Op("s.dist.mean()", lambda w: w["s"].dist.mean()), Op("s.dist.rvs(seed)", lambda w: w["s"].dist.rvs(size=2, random_state=SEED), "sample")]))
    for cls, key in (("Multinomial", "p"), ("DirichletMultinomial", "alpha")):
        v = [[0.25, 0.25, 0.5], [0.5, 0.25, 0.25]] if key == "p" else [[1.0, 2.5, 4.0], [2.0, 0.5, 3.0]]
        W.append(matrix_world(cls, cls, {"n": [5, 5], key: v}, {"x": [3, 0, 2]},
                              [Op("s.dist.logpmf", lambda w: w["s"].dist.logpmf(w["x"])), Op("s.dist.mean()", lambda w: w["s"].dist.mean()),
                               *([Op("s.dist.rvs(seed)", lambda w: w["s"].dist.rvs(size=2, random_state=SEED), "sample")] if cls == "Multinomial" else [])]))
    return W


def elsewhere(w):
    """another world of the same kind: every parameter, the data and the options of the objects differ"""
    out = w.make([(item, 1) for item in w.items])
    matrix = "s" in out and "v" not in out
    for k, v in out.items():
        if isinstance(v, np.ndarray) and v.dtype != bool and k != "idx":
            out[k] = v * 2 if matrix else v[::-1].copy()
        elif hasattr(v, "one_start"):
            v.one_start = not v.one_start
    return out


def worlds():
    return {w.name: w for w in [*[univariate(c) for c in UNI], *matrices()]}
