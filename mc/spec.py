"""Specification of the posterior models: exact reference machines.

A machine's state is the multiset of observations absorbed so far. `stats` computes the arguments a user would pass
for a batch, `expected` the exact hyperparameters after a multiset of observations (from the raw observations, in
rationals where possible), `logfam` the log density of the posterior family and `loglik` the log likelihood of a
single observation, both written from their definitions.
"""

import itertools
import math
from fractions import Fraction

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import ref
from mc.ref import F


def grid(**kw):
    return [dict(zip(kw, vals)) for vals in itertools.product(*kw.values())]


def fields_of(obj):
    """Public fields of a distribution."""
    import dataclasses

    return {f.name: getattr(obj, f.name) for f in dataclasses.fields(obj)}


class Spec:
    known_types = ()
    predictive = None
    rtol = 1e-9
    bayes = True  # posterior density check applies
    support_changes = False

    def __init__(self, name, fn, cls, priors, knowns, atoms, stats, expected, thetas, logfam, loglik, **kw):
        self.name, self.fn, self.cls = name, fn, cls
        self.priors, self.knowns, self.atoms = priors, knowns, atoms
        self.stats, self._expected = stats, expected
        self.thetas, self.logfam, self.loglik = thetas, logfam, loglik
        self.call_known = ()
        self.canon = lambda obj: {k: v for k, v in fields_of(obj).items() if v is not None}
        self.wide = []
        self.scale = lambda prior, obs, known: {}
        self.min_batch = 0
        for k, v in kw.items():
            setattr(self, k, v)

    def prior(self, fields):
        return self.cls(**fields)

    def update(self, prior_obj, obs, known):
        kwargs = dict(self.stats(obs, known))
        kwargs.update({k: known[k] for k in self.call_known})
        return getattr(M, self.fn)(prior=prior_obj, **kwargs)

    def expected(self, prior, obs, known):
        return self._expected(prior, obs, known)

    def compare(self, obj, exp, prior=None, obs=None, known=None, rtol=None):
        """None if the object agrees with the exact fields, else a description."""
        if type(obj) is not self.cls:
            return f"type {type(obj).__name__} instead of {self.cls.__name__}"
        got = self.canon(obj)
        if set(got) != set(exp):
            return f"fields {sorted(got)} instead of {sorted(exp)}"
        scale = self.scale(prior, obs, known) if obs is not None else {}
        for k, e in exp.items():
            try:
                g = np.asarray(got[k], dtype=float)
            except Exception as ex:
                return f"{k} = {got[k]!r} is not a number ({ex})"
            ea = np.asarray(ref.tofloat(e) if not isinstance(e, np.ndarray) else e, dtype=float)
            if g.shape != ea.shape and not (ea.ndim == 0 and g.size == 1):
                return f"{k} has shape {g.shape} instead of {ea.shape}"
            if not ref.allclose(g.reshape(ea.shape), ea, rtol or self.rtol, atol=1e-12 + 1e-13 * scale.get(k, 0.0) * 10):
                return f"{k} = {got[k]!r} instead of {ref.tofloat(e) if not isinstance(e, np.ndarray) else e!r}"
        return None


P01 = [0.05, 0.2, 0.37, 0.5, 0.81, 0.97]
POS = [0.05, 0.3, 1.0, 2.4, 6.0, 15.0]

BETA_PRIORS = grid(alpha=[1, 0.5, 3, 20.25], beta=[1, 0.25, 2, 50])
GAMMA_PRIORS = grid(alpha=[1, 0.5, 3, 40.25], beta=[1, 0.25, 2, 12])


def S(obs):
    return sum((F(o) for o in obs), Fraction(0))


def num(x):
    """exact sum as the number a user would have: int if it is one"""
    x = F(x)
    return int(x) if x.denominator == 1 else float(x)


specs = {}


def add(*a, **k):
    s = Spec(*a, **k)
    specs[s.name] = s
    return s


# -- discrete ------------------------------------------------------------------------------------

add(
    "binomial_beta", "binomial_beta", D.Beta, BETA_PRIORS, [{}],
    [(1, 0), (1, 1), (3, 2), (10, 0), (4, 4), (100, 37)],
    lambda obs, kn: {"n": sum(n for n, _ in obs), "x": sum(x for _, x in obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + sum(x for _, x in obs), "beta": F(p["beta"]) + sum(n - x for n, x in obs)},
    P01, lambda t, f: ref.beta(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.binomial(o[1], o[0], t),
)
add(
    "bernoulli_beta", "bernoulli_beta", D.Beta, BETA_PRIORS, [{}], [0, 1],
    lambda obs, kn: {"x": obs[0]},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + sum(obs), "beta": F(p["beta"]) + len(obs) - sum(obs)},
    P01, lambda t, f: ref.beta(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.binomial(o, 1, t),
    single=True, min_batch=1,
)
add(
    "negative_binomial_beta", "negative_binomial_beta", D.Beta, BETA_PRIORS, [{"r": 1}, {"r": 3}, {"r": 12}, {"r": 2.5}],
    [0, 1, 5, 60],
    lambda obs, kn: {"n": len(obs), "x": sum(obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + F(kn["r"]) * len(obs), "beta": F(p["beta"]) + sum(obs)},
    P01, lambda t, f: ref.beta(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.neg_binomial(o, kn["r"], t),
    call_known=("r",),
)
for one in (True, False):
    add(
        f"geometric_beta[one_start={one}]", "geometric_beta", D.Beta, BETA_PRIORS, [{"one_start": one}],
        [1, 2, 5, 40] if one else [0, 1, 4, 39],
        lambda obs, kn: {"n": len(obs), "x_total": sum(obs)},
        lambda p, obs, kn: {
            "alpha": F(p["alpha"]) + len(obs),
            "beta": F(p["beta"]) + sum(obs) - (len(obs) if kn["one_start"] else 0),
        },
        P01, lambda t, f: ref.beta(t, f["alpha"], f["beta"]),
        lambda t, o, kn: ref.geometric(o, t, kn["one_start"]),
        call_known=("one_start",),
    )
add(
    "geometric_beta[default]", "geometric_beta", D.Beta, BETA_PRIORS[:4], [{}],
    [1, 2, 5],
    lambda obs, kn: {"n": len(obs), "x_total": sum(obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + len(obs), "beta": F(p["beta"]) + sum(obs) - len(obs)},
    P01, lambda t, f: ref.beta(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.geometric(o, t, True),
)
SIMPLEX = [(0.2, 0.3, 0.5), (0.1, 0.1, 0.8), (0.6, 0.25, 0.15), (0.34, 0.33, 0.33)]
for nm in ("categorical_dirichlet", "multinomial_dirichlet"):
    add(
        nm, nm, D.Dirichlet,
        [{"alpha": np.array(a)} for a in ([1, 1, 1], [0.5, 2.0, 30.0], [3, 1, 2])], [{}],
        [(1, 0, 0), (0, 1, 0), (0, 0, 1)] + ([(2, 0, 5), (0, 3, 1), (0, 0, 0)] if nm.startswith("m") else []),
        lambda obs, kn: {"x": np.array([sum(o[i] for o in obs) for i in range(3)])},
        lambda p, obs, kn: {"alpha": [F(a) + sum(o[i] for o in obs) for i, a in enumerate(p["alpha"])]},
        SIMPLEX, lambda t, f: ref.dirichlet(t, [float(a) for a in f["alpha"]]),
        lambda t, o, kn: ref.multinomial(o, t),
    )
add(
    "poisson_gamma", "poisson_gamma", D.Gamma, GAMMA_PRIORS, [{}], [0, 1, 4, 90],
    lambda obs, kn: {"x_total": sum(obs), "n": len(obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + sum(obs), "beta": F(p["beta"]) + len(obs)},
    POS, lambda t, f: ref.gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.poisson(o, t),
)

# -- continuous univariate -------------------------------------------------------------------------

XPOS = [0.25, 1, 3.5, 120]
XREAL = [-2.5, 0, 1, 40]
add(
    "exponential_gamma", "exponential_gamma", D.Gamma, GAMMA_PRIORS, [{}], XPOS,
    lambda obs, kn: {"x_total": num(S(obs)), "n": len(obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + len(obs), "beta": F(p["beta"]) + S(obs)},
    POS, lambda t, f: ref.gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.exponential(o, t),
)
add(
    "gamma_known_shape", "gamma_known_shape", D.Gamma, GAMMA_PRIORS, [{"alpha": 1}, {"alpha": 0.5}, {"alpha": 7}, {"alpha": 30.5}], XPOS,
    lambda obs, kn: {"x_total": num(S(obs)), "n": len(obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + len(obs) * F(kn["alpha"]), "beta": F(p["beta"]) + S(obs)},
    POS, lambda t, f: ref.gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.gamma(o, kn["alpha"], t), call_known=("alpha",),
)
add(
    "inverse_gamma_known_rate", "inverse_gamma_known_rate", D.Gamma, GAMMA_PRIORS, [{"alpha": 1}, {"alpha": 0.5}, {"alpha": 7}], [0.25, 1, 4, 0.0078125],
    lambda obs, kn: {"reciprocal_x_total": num(sum(1 / F(o) for o in obs)), "n": len(obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + len(obs) * F(kn["alpha"]), "beta": F(p["beta"]) + sum(1 / F(o) for o in obs)},
    POS, lambda t, f: ref.gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.inverse_gamma(o, kn["alpha"], t), call_known=("alpha",),
)


def _norm_canon(obj):
    return {"mu": obj.mu, "sigma2": np.asarray(obj.sigma, float) ** 2 if np.all(np.asarray(obj.sigma, float) >= 0) else np.nan}


NORMAL_PRIORS = grid(mu=[0, -3, 25.5], sigma=[1, 0.25, 2, 1000])


def _nkv(p, obs, var):
    t0 = 1 / F(p["sigma"]) ** 2
    t = t0 + len(obs) / F(var)
    return {"mu": (F(p["mu"]) * t0 + S(obs) / F(var)) / t, "sigma2": 1 / t}


add(
    "normal_known_variance", "normal_known_variance", D.Normal, NORMAL_PRIORS, [{"var": 1}, {"var": 0.25}, {"var": 9}], XREAL,
    lambda obs, kn: {"x_total": num(S(obs)), "n": len(obs)},
    lambda p, obs, kn: _nkv(p, obs, kn["var"]),
    [-4.0, -1.0, 0.0, 0.7, 3.0, 20.0], lambda t, f: ref.normal(t, float(f["mu"]), float(f["sigma"]) ** 2),
    lambda t, o, kn: ref.normal(o, t, kn["var"]), call_known=("var",), canon=_norm_canon,
)
add(
    "normal_known_precision", "normal_known_precision", D.Normal, NORMAL_PRIORS, [{"precision": 1}, {"precision": 4}, {"precision": 0.125}], XREAL,
    lambda obs, kn: {"x_total": num(S(obs)), "n": len(obs)},
    lambda p, obs, kn: _nkv(p, obs, 1 / F(kn["precision"])),
    [-4.0, -1.0, 0.0, 0.7, 3.0, 20.0], lambda t, f: ref.normal(t, float(f["mu"]), float(f["sigma"]) ** 2),
    lambda t, o, kn: ref.normal(o, t, 1 / kn["precision"]), call_known=("precision",), canon=_norm_canon,
)


def _ss(obs, mu):
    return sum(((F(o) - F(mu)) ** 2 for o in obs), Fraction(0))


def _x2(obs):
    return {"x_total": num(S(obs)), "x2_total": num(sum((F(o) ** 2 for o in obs), Fraction(0))), "n": len(obs)}


def _mag(prior, obs, known):
    m = sum(float(o) ** 2 for o in obs) + len(obs) * float(max([abs(known.get("mu", 0))] + [abs(prior.get("mu", 0)) if prior else 0])) ** 2
    return {"beta": m, "sigma2": m, "mu": math.sqrt(m)}


VARS = [0.05, 0.4, 1.0, 3.0, 20.0, 400.0]
add(
    "normal_known_mean[InverseGamma]", "normal_known_mean", D.InverseGamma, GAMMA_PRIORS, [{"mu": 0}, {"mu": 2.5}, {"mu": -30}], XREAL,
    lambda obs, kn: _x2(obs),
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + Fraction(len(obs), 2), "beta": F(p["beta"]) + _ss(obs, kn["mu"]) / 2},
    VARS, lambda t, f: ref.inverse_gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.normal(o, kn["mu"], t), call_known=("mu",), scale=_mag,
)
add(
    "normal_known_mean[ScaledInverseChiSquared]", "normal_known_mean", D.ScaledInverseChiSquared,
    grid(nu=[1, 0.5, 4, 30], sigma2=[1, 0.25, 7]), [{"mu": 0}, {"mu": 2.5}, {"mu": -30}], XREAL,
    lambda obs, kn: _x2(obs),
    lambda p, obs, kn: {"nu": F(p["nu"]) + len(obs), "sigma2": (F(p["nu"]) * F(p["sigma2"]) + _ss(obs, kn["mu"])) / (F(p["nu"]) + len(obs))},
    VARS, lambda t, f: ref.scaled_inv_chi2(t, f["nu"], f["sigma2"]),
    lambda t, o, kn: ref.normal(o, kn["mu"], t), call_known=("mu",), scale=_mag,
)


def _nig(p, obs, lam):
    n = len(obs)
    lp = F(p[lam]) + n
    mu = (F(p[lam]) * F(p["mu"]) + S(obs)) / lp
    # textbook: beta + (1/2) sum (x - mean)^2 + (lam n / (lam + n)) (mean - mu)^2 / 2
    b = F(p["beta"])
    if n:
        mean = S(obs) / n
        b += _ss(obs, mean) / 2 + F(p[lam]) * n / lp * (mean - F(p["mu"])) ** 2 / 2
    return {"mu": mu, lam: lp, "alpha": F(p["alpha"]) + Fraction(n, 2), "beta": b}


NIG_THETA = list(itertools.product([-2.0, 0.5, 3.0], [0.3, 1.0, 8.0, 300.0]))


def _nig_log(t, f, lam):
    mu, var = t
    return ref.normal(mu, float(f["mu"]), var / float(f[lam])) + ref.inverse_gamma(var, float(f["alpha"]), float(f["beta"]))


def _ng_log(t, f):
    mu, var = t
    tau = 1 / var
    return ref.normal(mu, float(f["mu"]), 1 / (float(f["lam"]) * tau)) + ref.gamma(tau, float(f["alpha"]), float(f["beta"]))


NIG_PRIORS = grid(mu=[0, -3, 10.5], nu=[1, 0.25, 6], alpha=[1, 0.5, 9], beta=[1, 0.125, 20])
NG_PRIORS = [{"mu": p["mu"], "lam": p["nu"], "alpha": p["alpha"], "beta": p["beta"]} for p in NIG_PRIORS]
for fn in ("normal", "normal_normal_inverse_gamma", "log_normal"):
    log = fn == "log_normal"
    # log-normal observations are given as their logarithms, which is what the model is told
    st = (lambda obs, kn: {"ln_x_total": _x2(obs)["x_total"], "ln_x2_total": _x2(obs)["x2_total"], "n": len(obs)}) if log else (lambda obs, kn: _x2(obs))
    lik = (lambda t, o, kn: ref.log_normal(math.exp(o), t[0], t[1])) if log else (lambda t, o, kn: ref.normal(o, t[0], t[1]))
    at = [-2.5, 0, 1, 4] if log else XREAL
    add(
        f"{fn}[NormalInverseGamma]", fn, D.NormalInverseGamma, NIG_PRIORS, [{}], at, st,
        lambda p, obs, kn: _nig(p, obs, "nu"), NIG_THETA, lambda t, f: _nig_log(t, f, "nu"), lik, scale=_mag, joint="nu",
    )
    if fn != "normal_normal_inverse_gamma":
        add(
            f"{fn}[NormalGamma]", fn, D.NormalGamma, NG_PRIORS, [{}], at, st,
            lambda p, obs, kn: _nig(p, obs, "lam"), NIG_THETA, lambda t, f: _ng_log(t, f), lik, scale=_mag, joint="lam",
        )
add(
    "uniform_pareto", "uniform_pareto", D.Pareto, grid(x_m=[1, 0.25, 5], alpha=[1, 0.5, 8]), [{}], [0.125, 0.5, 3, 17],
    lambda obs, kn: {"x_max": max(obs, default=0), "n": len(obs)},
    lambda p, obs, kn: {"x_m": max([F(p["x_m"])] + [F(o) for o in obs]), "alpha": F(p["alpha"]) + len(obs)},
    [0.2, 0.6, 2.0, 4.0, 9.0, 30.0], lambda t, f: ref.pareto(t, f["x_m"], f["alpha"]),
    lambda t, o, kn: ref.uniform(o, 0, t),
)
add(
    "pareto_gamma", "pareto_gamma", D.Gamma, GAMMA_PRIORS, [{"x_m": 1}, {"x_m": 0.25}, {"x_m": 6.5}], [1, 1.5, 4, 300],  # x / x_m
    lambda obs, kn: {"n": len(obs), "ln_x_total": math.fsum(math.log(o * kn["x_m"]) for o in obs)},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + len(obs), "beta": F(p["beta"]) + F(math.fsum(math.log(o) for o in obs))},
    POS, lambda t, f: ref.gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.pareto(o * kn["x_m"], kn["x_m"], t), call_known=("x_m",),
)
add(
    "weibull_inverse_gamma_known_shape", "weibull_inverse_gamma_known_shape", D.InverseGamma, GAMMA_PRIORS, [{"shape": 1}, {"shape": 2}, {"shape": 0.5}],
    [0.25, 1, 4, 16],
    lambda obs, kn: {"n": len(obs), "x_beta_total": num(math.fsum(float(o) ** kn["shape"] for o in obs))},
    lambda p, obs, kn: {"alpha": F(p["alpha"]) + len(obs), "beta": F(p["beta"]) + sum(F(float(o) ** kn["shape"]) for o in obs)},
    VARS, lambda t, f: ref.inverse_gamma(t, f["alpha"], f["beta"]),
    lambda t, o, kn: ref.weibull(o, kn["shape"], t),
)

# -- unnormalised families -------------------------------------------------------------------------
# logfam goes through the library's own log likelihood method (with the object), see C04; here only hyperparameters

XGP = [0.25, 1, 2, 3]


def _prod(obs):
    r = Fraction(1)
    for o in obs:
        r *= F(o)
    return r


AB = list(itertools.product([0.5, 1.0, 2.5, 7.0], [0.3, 1.0, 4.0]))
add(
    "gamma", "gamma", D.GammaProportional, grid(p=[1, 0.5, 8], q=[1, 0.25, 6], r=[1, 3], s=[1, 2.5]), [{}], XGP,
    lambda obs, kn: {"x_total": num(S(obs)), "x_prod": num(_prod(obs)), "n": len(obs)},
    lambda p, obs, kn: {"p": F(p["p"]) * _prod(obs), "q": F(p["q"]) + S(obs), "r": F(p["r"]) + len(obs), "s": F(p["s"]) + len(obs)},
    AB, None, lambda t, o, kn: ref.gamma(o, t[0], t[1]), bayes=False,
    lib=lambda obj, t, kn: obj.approx_log_likelihood(alpha=t[0], beta=t[1]),
    definition=lambda t, f, kn: (t[0] - 1) * math.log(f["p"]) - t[1] * f["q"] - f["r"] * math.lgamma(t[0]) + f["s"] * t[0] * math.log(t[1]),
)
add(
    "gamma_known_rate", "gamma_known_rate", D.GammaKnownRateProportional, grid(a=[1, 0.5, 8], b=[1, 3], c=[1, 2.5]),
    [{"beta": 1}, {"beta": 0.25}, {"beta": 5}], XGP,
    lambda obs, kn: {"x_prod": num(_prod(obs)), "n": len(obs)},
    lambda p, obs, kn: {"a": F(p["a"]) * _prod(obs), "b": F(p["b"]) + len(obs), "c": F(p["c"]) + len(obs)},
    [0.5, 1.0, 2.5, 7.0, 20.0], None, lambda t, o, kn: ref.gamma(o, t, kn["beta"]), bayes=False, call_known=("beta",),
    lib=lambda obj, t, kn: obj.approx_log_likelihood(alpha=t, beta=kn["beta"]),
    definition=lambda t, f, kn: (t - 1) * math.log(f["a"]) + t * f["c"] * math.log(kn["beta"]) - f["b"] * math.lgamma(t),
)
add(
    "beta", "beta", D.BetaProportional, grid(p=[1, 0.5, 0.03125], q=[1, 0.25], k=[1, 4, 2.5]), [{}], [0.25, 0.5, 0.875, 0.0625],
    lambda obs, kn: {"x_prod": num(_prod(obs)), "one_minus_x_prod": num(_prod([1 - F(o) for o in obs])), "n": len(obs)},
    lambda p, obs, kn: {"p": F(p["p"]) * _prod(obs), "q": F(p["q"]) * _prod([1 - F(o) for o in obs]), "k": F(p["k"]) + len(obs)},
    AB, None, lambda t, o, kn: ref.beta(o, t[0], t[1]), bayes=False,
    lib=lambda obj, t, kn: obj.approx_log_likelihood(alpha=t[0], beta=t[1]),
    definition=lambda t, f, kn: f["k"] * (math.lgamma(t[0] + t[1]) - math.lgamma(t[0]) - math.lgamma(t[1])) + t[0] * math.log(f["p"]) + t[1] * math.log(f["q"]),
)


def _vm_canon(obj):
    """cartesian form: b is an angle, undetermined for a = 0"""
    a, b = float(obj.a), float(obj.b)
    if not a >= 0 or not -1e-9 <= b <= 2 * math.pi + 1e-9:  # documented: positive, and between 0 and 2 pi
        return {"C": math.nan, "S": math.nan}
    return {"C": a * math.cos(b), "S": a * math.sin(b)}


add(
    "von_mises_known_concentration", "von_mises_known_concentration", D.VonMisesKnownConcentration,
    grid(a=[1, 0.25, 6], b=[0, 0.5, 2, 3.5, 5.75]), [{"kappa": 1}, {"kappa": 0.3}, {"kappa": 12}], [0.0, 1.25, 3.0, 4.5],
    lambda obs, kn: {"cos_total": math.fsum(map(math.cos, obs)), "sin_total": math.fsum(map(math.sin, obs)), "n": len(obs)},
    lambda p, obs, kn: {
        "C": F(p["a"] * math.cos(p["b"]) + kn["kappa"] * math.fsum(map(math.cos, obs))),
        "S": F(p["a"] * math.sin(p["b"]) + kn["kappa"] * math.fsum(map(math.sin, obs))),
    },
    [-3.0, -1.0, 0.0, 0.8, 2.2, 3.1, 5.5], None, lambda t, o, kn: ref.von_mises(o, t, kn["kappa"]), bayes=False,
    call_known=("kappa",), canon=_vm_canon,
    scale=lambda p, obs, kn: {"C": 10 + kn["kappa"] * len(obs) if kn else 10, "S": 10 + kn["kappa"] * len(obs) if kn else 10},
    lib=lambda obj, t, kn: obj.log_likelihood(mu=t),
    definition=lambda t, f, kn: f["a"] * math.cos(t - f["b"]) - math.log(float(ref.sp.i0e(f["a"]))) - f["a"],
    exact_definition=True,
)
add(
    "von_mises_known_direction", "von_mises_known_direction", D.VonMisesKnownDirectionProportional,
    grid(c=[0, 1, 5], r=[0, 0.5, 4]), [{"direction": 0.0}, {"direction": 2.0}], [0.0, 1.25, 3.0, 4.5],
    lambda obs, kn: {"centered_cos_total": math.fsum(math.cos(o - kn["direction"]) for o in obs), "n": len(obs)},
    lambda p, obs, kn: {"c": F(p["c"]) + len(obs), "r": F(p["r"]) + F(math.fsum(math.cos(o - kn["direction"]) for o in obs))},
    [0.1, 0.5, 1.0, 3.0, 12.0, 40.0], None, lambda t, o, kn: ref.von_mises(o, kn["direction"], t), bayes=False,
    lib=lambda obj, t, kn: obj.approx_log_likelihood(kappa=t),
    definition=lambda t, f, kn: t * f["r"] - f["c"] * (math.log(float(ref.sp.i0e(t))) + t),
)

DISCRETE = [n for n in specs if specs[n].fn in (
    "binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta", "categorical_dirichlet",
    "multinomial_dirichlet", "poisson_gamma")]
PROPORTIONAL = ["gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_direction"]
CONTINUOUS = [n for n in specs if n not in DISCRETE and n not in PROPORTIONAL]
