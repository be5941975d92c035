"""The univariate distributions with a dist attribute: documented meaning of their parameters, from special functions."""

import itertools
import math

import numpy as np
from scipy import special as sp

from conjugate import distributions as D
from mc import ref

NINF, INF = ref.NINF, math.inf


def grid(**kw):
    return [dict(zip(kw, v)) for v in itertools.product(*kw.values())]


class Dist:
    def __init__(self, cls, fields, points, log, cdf, mean, support, discrete, options=()):
        self.cls, self.fields, self.points, self.log, self.cdf = cls, fields, points, log, cdf
        self.mean, self.support, self.discrete, self.options = mean, support, discrete, options
        self.name = cls.__name__


DIST = {}


def add(*a, **k):
    d = Dist(*a, **k)
    DIST[d.name] = d


def clip01(x):
    return min(max(x, 0.0), 1.0)


def sumpmf(log, lo):
    def cdf(x, f):
        if x < lo(f):
            return 0.0
        return math.fsum(math.exp(log(k, f)) for k in range(int(lo(f)), int(math.floor(x)) + 1))

    return cdf


SH = [0.05, 0.5, 1, 2.5, 7, 40.25, 1000]
U = [-0.5, 0, 1e-6, 0.01, 0.3, 0.5, 0.75, 0.99, 1, 1.5]
RP = [-2.0, -1e-6, 0, 1e-6, 0.01, 0.3, 1, 1.75, 3, 20.0, 500.0, 1e5]
RE = [-500.0, -20.0, -3.5, -1, -0.1, 0, 0.25, 1, 2.5, 9, 40.0, 500.0]
KS = [-3, -1, 0, 1, 2, 3, 5, 17, 60, 0.5, 1.5, -0.5]

add(D.Beta, grid(alpha=SH, beta=SH), lambda f: U,
    lambda x, f: ref.beta(x, f["alpha"], f["beta"]),
    lambda x, f: float(sp.betainc(f["alpha"], f["beta"], clip01(x))),
    lambda f: f["alpha"] / (f["alpha"] + f["beta"]), lambda f: (0, 1), False)
add(D.Binomial, grid(n=[0, 1, 2, 5, 30, 101, 500, 20000, 10**7], p=[0, 1e-9, 0.01, 0.3, 0.5, 0.875, 1]), lambda f: KS + [f["n"], f["n"] + 1, f["n"] - 1],
    lambda x, f: ref.binomial(x, f["n"], f["p"]),
    lambda x, f: 0.0 if x < 0 else 1.0 if x >= f["n"] else float(sp.betainc(f["n"] - math.floor(x), math.floor(x) + 1, 1 - f["p"])),
    lambda f: f["n"] * f["p"], lambda f: (0, f["n"]), True)
add(D.Exponential, grid(lam=[1e-8, 0.01, 0.5, 1, 3, 250.0, 1e8]), lambda f: RP,
    lambda x, f: ref.exponential(x, f["lam"]), lambda x, f: -math.expm1(-f["lam"] * max(x, 0)), lambda f: 1 / f["lam"], lambda f: (0, INF), False)
add(D.Gamma, grid(alpha=SH, beta=SH), lambda f: RP,
    lambda x, f: ref.gamma(x, f["alpha"], f["beta"]), lambda x, f: float(sp.gammainc(f["alpha"], f["beta"] * max(x, 0))),
    lambda f: f["alpha"] / f["beta"], lambda f: (0, INF), False)
add(D.NegativeBinomial, grid(n=[0.01, 0.5, 1, 3, 20, 7.25, 150.5, 1e4], p=[1e-6, 0.05, 0.3, 0.5, 0.9, 0.9999, 1]), lambda f: KS,
    lambda x, f: ref.neg_binomial(x, f["n"], f["p"]),
    lambda x, f: 0.0 if x < 0 else float(sp.betainc(f["n"], math.floor(x) + 1, f["p"])), lambda f: f["n"] * (1 - f["p"]) / f["p"], lambda f: (0, INF), True)
add(D.Hypergeometric, [g for g in grid(N=[1, 5, 20, 200], k=[0, 1, 4, 13, 100], n=[0, 1, 3, 15, 120]) if g["k"] <= g["N"] and g["n"] <= g["N"]],
    lambda f: KS + [f["n"], f["k"]],
    lambda x, f: ref.hypergeometric(x, f["N"], f["k"], f["n"]), sumpmf(lambda k, f: ref.hypergeometric(k, f["N"], f["k"], f["n"]), lambda f: 0),
    lambda f: f["n"] * f["k"] / f["N"], lambda f: (max(0, f["n"] + f["k"] - f["N"]), min(f["n"], f["k"])), True)
add(D.Poisson, grid(lam=[1e-9, 0.01, 0.5, 1, 3.25, 29, 31, 40, 120, 300, 5000, 1e6]), lambda f: KS + [100, 300],
    lambda x, f: ref.poisson(x, f["lam"]), lambda x, f: 0.0 if x < 0 else float(sp.gammaincc(math.floor(x) + 1, f["lam"])),
    lambda f: f["lam"], lambda f: (0, INF), True)
add(D.BetaBinomial, grid(n=[0, 1, 2, 9, 60], alpha=SH, beta=SH), lambda f: KS + [f["n"], f["n"] + 1],
    lambda x, f: ref.beta_binomial(x, f["n"], f["alpha"], f["beta"]), sumpmf(lambda k, f: ref.beta_binomial(k, f["n"], f["alpha"], f["beta"]), lambda f: 0),
    lambda f: f["n"] * f["alpha"] / (f["alpha"] + f["beta"]), lambda f: (0, f["n"]), True)
add(D.BetaNegativeBinomial, grid(n=[1, 2, 9, 60], alpha=SH[1:], beta=SH[1:]), lambda f: KS,
    lambda x, f: ref.beta_neg_binomial(x, f["n"], f["alpha"], f["beta"]), sumpmf(lambda k, f: ref.beta_neg_binomial(k, f["n"], f["alpha"], f["beta"]), lambda f: 0),
    lambda f: f["n"] * f["beta"] / (f["alpha"] - 1) if f["alpha"] > 1 else INF, lambda f: (0, INF), True)


def _geo0(f):
    return 1 if f.get("one_start", True) else 0


OPT = [{}, {"one_start": True}, {"one_start": False}, {"one_start": np.True_}, {"one_start": np.False_}, {"one_start": 1}, {"one_start": 0}]
add(D.Geometric, [{**g, **o} for g in grid(p=[1e-7, 0.001, 0.05, 0.3, 0.5, 0.9, 0.99999, 1]) for o in OPT], lambda f: KS,
    lambda x, f: ref.geometric(x, f["p"], f.get("one_start", True)),
    lambda x, f: 1 - (1 - f["p"]) ** max(0, math.floor(x) + 1 - _geo0(f)), lambda f: 1 / f["p"] - 1 + _geo0(f), lambda f: (_geo0(f), INF), True, options=("one_start",))
add(D.BetaGeometric, [{**g, **o} for g in grid(alpha=SH, beta=SH) for o in OPT], lambda f: KS + [1000],
    lambda x, f: ref.beta_geometric(x, f["alpha"], f["beta"], f.get("one_start", True)),
    lambda x, f: -math.expm1(ref.lbeta(f["alpha"], f["beta"] + max(0, math.floor(x) + 1 - _geo0(f))) - ref.lbeta(f["alpha"], f["beta"])),
    lambda f: (f["alpha"] + f["beta"] - 1) / (f["alpha"] - 1) - 1 + _geo0(f) if f["alpha"] > 1 else INF, lambda f: (_geo0(f), INF), True, options=("one_start",))
add(D.Normal, grid(mu=[-30, -1, 0, 0.7, 20.3, 1e6], sigma=[1e-7, 1e-3, 0.1, 1, 2, 300, 1e7]), lambda f: RE,
    lambda x, f: ref.normal(x, f["mu"], f["sigma"] ** 2), lambda x, f: float(sp.ndtr((x - f["mu"]) / f["sigma"])), lambda f: f["mu"], lambda f: (-INF, INF), False)
add(D.Uniform, [g for g in grid(low=[-20, -1, 0, 0.1, 3], high=[-2, 0.7, 1, 4, 300]) if g["low"] < g["high"]], lambda f: RE + [f["low"], f["high"]],
    lambda x, f: ref.uniform(x, f["low"], f["high"]), lambda x, f: clip01((x - f["low"]) / (f["high"] - f["low"])),
    lambda f: (f["low"] + f["high"]) / 2, lambda f: (f["low"], f["high"]), False)
add(D.Pareto, grid(x_m=[1e-3, 0.01, 0.5, 1, 3, 40, 1e4], alpha=[0.01, 0.5, 1, 2.5, 30]), lambda f: RP + [f["x_m"], f["x_m"] * 1.5, f["x_m"] * 0.99],
    lambda x, f: ref.pareto(x, f["x_m"], f["alpha"]), lambda x, f: 0.0 if x < f["x_m"] else -math.expm1(f["alpha"] * math.log(f["x_m"] / x)),
    lambda f: f["alpha"] * f["x_m"] / (f["alpha"] - 1) if f["alpha"] > 1 else INF, lambda f: (f["x_m"], INF), False)
add(D.InverseGamma, grid(alpha=SH, beta=SH), lambda f: RP,
    lambda x, f: ref.inverse_gamma(x, f["alpha"], f["beta"]), lambda x, f: 0.0 if x <= 0 else float(sp.gammaincc(f["alpha"], f["beta"] / x)),
    lambda f: f["beta"] / (f["alpha"] - 1) if f["alpha"] > 1 else INF, lambda f: (0, INF), False)


def _tcdf(x, f):
    return float(sp.stdtr(f["nu"], (x - f["mu"]) / f["sigma"]))


add(D.StudentT, grid(mu=[-30, 0, 2.7], sigma=[1e-4, 0.1, 1, 4, 5e3], nu=[0.05, 0.5, 1, 1.5, 2, 3, 29, 31, 40, 150, 2e3, 1e5, 1e7]), lambda f: RE,
    lambda x, f: ref.student_t(x, f["nu"], f["mu"], f["sigma"] ** 2), _tcdf, lambda f: f["mu"] if f["nu"] > 1 else None, lambda f: (-INF, INF), False)
add(D.Lomax, grid(alpha=[0.01, 0.5, 1, 2.5, 40, 150, 1e4], lam=[1e-6, 0.01, 0.5, 1, 3, 250, 1e6]), lambda f: RP,
    lambda x, f: ref.lomax(x, f["alpha"], f["lam"]), lambda x, f: 0.0 if x < 0 else -math.expm1(-f["alpha"] * math.log1p(x / f["lam"])),
    lambda f: f["lam"] / (f["alpha"] - 1) if f["alpha"] > 1 else INF, lambda f: (0, INF), False)
add(D.CompoundGamma, grid(alpha=[0.5, 1, 2.5, 40.25, 1000], beta=[0.5, 1, 3, 40, 1000], lam=[0.01, 0.5, 1, 3, 250]), lambda f: RP,
    lambda x, f: ref.compound_gamma(x, f["alpha"], f["beta"], f["lam"]), lambda x, f: 0.0 if x < 0 else float(sp.betainc(f["alpha"], f["beta"], x / (x + f["lam"]))),
    lambda f: f["lam"] * f["alpha"] / (f["beta"] - 1) if f["beta"] > 1 else INF, lambda f: (0, INF), False)
add(D.VonMises, grid(mu=[-3.1, -2, 0, 0.7, 3], kappa=[1e-3, 0.1, 1, 4, 50, 120, 800, 1e4]), lambda f: [-3.1, -2, -0.5, 0, 0.7, 1.5, 3, 3.1],
    lambda x, f: ref.von_mises(x, f["mu"], f["kappa"]), None, None, None, False)
add(D.ScaledInverseChiSquared, grid(nu=[0.01, 0.5, 1, 2, 3, 30, 500, 1e4], sigma2=[1e-8, 0.01, 0.5, 1, 4, 100, 1e7]), lambda f: RP,
    lambda x, f: ref.scaled_inv_chi2(x, f["nu"], f["sigma2"]), lambda x, f: 0.0 if x <= 0 else float(sp.gammaincc(f["nu"] / 2, f["nu"] * f["sigma2"] / (2 * x))),
    lambda f: f["nu"] * f["sigma2"] / (f["nu"] - 2) if f["nu"] > 2 else INF, lambda f: (0, INF), False)
add(D.LogNormal, grid(mu=[-30, -3, -1, 0, 0.7, 4, 11], sigma=[1e-3, 0.1, 0.5, 1, 2, 8]), lambda f: RP,
    lambda x, f: ref.log_normal(x, f["mu"], f["sigma"] ** 2), lambda x, f: 0.0 if x <= 0 else float(sp.ndtr((math.log(x) - f["mu"]) / f["sigma"])),
    lambda f: math.exp(f["mu"] + f["sigma"] ** 2 / 2), lambda f: (0, INF), False)
add(D.Weibull, grid(beta=[0.1, 0.5, 1, 2, 3.5, 10, 60], theta=[1e-5, 0.01, 0.5, 1, 3, 250, 1e6]), lambda f: RP,
    lambda x, f: NINF if x < 0 else INF if x == 0 and f["beta"] < 1 else ref.weibull(x, f["beta"], f["theta"]),
    lambda x, f: 0.0 if x < 0 else -math.expm1(-(x ** f["beta"]) / f["theta"]),
    lambda f: f["theta"] ** (1 / f["beta"]) * math.gamma(1 + 1 / f["beta"]), lambda f: (0, INF), False)
