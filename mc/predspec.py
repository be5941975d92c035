"""Predictive distributions: argument grids, outcomes and exact log densities."""

import itertools
import math

import numpy as np

from conjugate import distributions as D
from mc import ref

NINF = ref.NINF
SH = [1e-4, 0.05, 0.3, 0.5, 1, 2.5, 20.25, 101, 400, 1e5]
SHS = [0.5, 1, 2.5, 20.25]
COUNT = [0, 1, 2, 5, 17, 200]
OFF = [-1, -0.5, 0.5, 2.5]
REALS = [-40.0, -3.5, -1.0, 0.0, 0.3, 1, 2.75, 60.0]
POSITIVE = [1e-6, 0.01, 0.3, 1, 2.5, 30.0, 1e4]


class Pred:
    """fields: grid of distribution fields; known: grid of further arguments; outcomes(f, k); log(x, f, k)"""

    def __init__(self, name, fn, cls, fields, known, outcomes, log, discrete, prior=None, lik=None, total=None, out=None):
        self.name, self.fn, self.cls = name, fn, cls
        self.fields, self.known, self.outcomes, self.log = fields, known, outcomes, log
        self.discrete, self.prior, self.lik, self.total, self.out = discrete, prior, lik, total, out


def grid(**kw):
    return [dict(zip(kw, v)) for v in itertools.product(*kw.values())]


P = {}


def add(*a, **k):
    p = Pred(*a, **k)
    P[p.name] = p


AB = grid(alpha=SH, beta=SH)
BETA_PRIOR = ("unit", lambda t, f: ref.beta(t, f["alpha"], f["beta"]))
GAMMA_PRIOR = ("positive", lambda t, f: ref.gamma(t, f["alpha"], f["beta"]))
INVG_PRIOR = ("positive", lambda t, f: ref.inverse_gamma(t, f["alpha"], f["beta"]))

add("binomial_beta", "binomial_beta_predictive", D.Beta, AB, grid(n=[0, 1, 2, 3, 7, 20, 50, 99, 100, 101, 1000, 100_000]),
    lambda f, k: sorted({x for x in (0, 1, 2, 3, k["n"] // 2, k["n"] - 1, k["n"]) if 0 <= x <= k["n"]}) + [-1, 0.5, k["n"] + 1, k["n"] + 0.5],
    lambda x, f, k: ref.beta_binomial(x, k["n"], f["alpha"], f["beta"]), True, prior=BETA_PRIOR,
    lik=lambda x, t, k: ref.binomial(x, k["n"], t), total=lambda f, k: (0, k["n"]) if k["n"] <= 1000 else None, out=D.BetaBinomial)
add("bernoulli_beta", "bernoulli_beta_predictive", D.Beta, AB, [{}], lambda f, k: [0, 1, -1, 2, 0.5],
    lambda x, f, k: ref.beta_binomial(x, 1, f["alpha"], f["beta"]), True, prior=BETA_PRIOR,
    lik=lambda x, t, k: ref.binomial(x, 1, t), total=lambda f, k: (0, 1), out=D.BetaBinomial)
add("negative_binomial_beta", "negative_binomial_beta_predictive", D.Beta, AB, grid(r=[1, 2, 3, 7, 10, 60, 100, 1000]),
    lambda f, k: COUNT + OFF, lambda x, f, k: ref.beta_neg_binomial(x, k["r"], f["alpha"], f["beta"]), True, prior=BETA_PRIOR,
    lik=lambda x, t, k: ref.neg_binomial(x, k["r"], t), out=D.BetaNegativeBinomial)
add("geometric_beta", "geometric_beta_predictive", D.Beta, AB, [{}] + [{"one_start": o} for o in (True, False, np.True_, np.False_, 1, 0)],
    lambda f, k: COUNT + OFF, lambda x, f, k: ref.beta_geometric(x, f["alpha"], f["beta"], k.get("one_start", True)), True,
    prior=BETA_PRIOR, lik=lambda x, t, k: ref.geometric(x, t, k.get("one_start", True)), out=D.BetaGeometric)
add("poisson_gamma", "poisson_gamma_predictive", D.Gamma, AB, [{}] + grid(n=[1, 2, 3, 7, 10, 0.25, 0.7, 2.5, 33.25, 100, 200.5, 300, 1e4, 1234.5, 1e-3, 1e7, 1e-8]),
    lambda f, k: COUNT + OFF,
    lambda x, f, k: ref.neg_binomial(x, f["alpha"], f["beta"] / (f["beta"] + k.get("n", 1))), True, prior=GAMMA_PRIOR,
    lik=lambda x, t, k: ref.poisson(x, t * k.get("n", 1)), out=D.NegativeBinomial)
add("exponential_gamma", "exponential_gamma_predictive", D.Gamma, AB, [{}], lambda f, k: POSITIVE + [0, -1, -1e-3],
    lambda x, f, k: ref.lomax(x, f["alpha"], f["beta"]), False, prior=GAMMA_PRIOR, lik=lambda x, t, k: ref.exponential(x, t), out=D.Lomax)
add("gamma_known_shape", "gamma_known_shape_predictive", D.Gamma, AB, grid(alpha=[0.01, 0.3, 0.5, 1, 2, 3, 10, 30.5, 100, 1000]), lambda f, k: POSITIVE + [-1, -1e-3],
    lambda x, f, k: ref.compound_gamma(x, k["alpha"], f["alpha"], f["beta"]), False, prior=GAMMA_PRIOR,
    lik=lambda x, t, k: ref.gamma(x, k["alpha"], t), out=D.CompoundGamma)
NORM = grid(mu=[-1e4, -3, -0.3, 0, 0.7, 1, 25.5, 100], sigma=[1e-3, 0.1, 0.7, 1, 2, 10, 100, 300.0, 1e6])
NPRIOR = ("real", lambda t, f: ref.normal(t, f["mu"], f["sigma"] ** 2))
add("normal_known_variance", "normal_known_variance_predictive", D.Normal, NORM, grid(var=[1e-6, 0.01, 0.25, 0.7, 1, 9, 100, 1e4, 1e8]), lambda f, k: REALS,
    lambda x, f, k: ref.normal(x, f["mu"], f["sigma"] ** 2 + k["var"]), False, prior=NPRIOR, lik=lambda x, t, k: ref.normal(x, t, k["var"]), out=D.Normal)
add("normal_known_precision", "normal_known_precision_predictive", D.Normal, NORM, grid(precision=[1e-6, 0.001, 0.25, 0.7, 1, 4, 100, 1e5]), lambda f, k: REALS,
    lambda x, f, k: ref.normal(x, f["mu"], f["sigma"] ** 2 + 1 / k["precision"]), False, prior=NPRIOR,
    lik=lambda x, t, k: ref.normal(x, t, 1 / k["precision"]), out=D.Normal)
MUS = grid(mu=[-30, -0.3, 0, 0.7, 1, 2.5, 100])
add("normal_known_mean[InverseGamma]", "normal_known_mean_predictive", D.InverseGamma, AB, MUS, lambda f, k: REALS,
    lambda x, f, k: ref.student_t(x, 2 * f["alpha"], k["mu"], f["beta"] / f["alpha"]), False, prior=INVG_PRIOR,
    lik=lambda x, t, k: ref.normal(x, k["mu"], t), out=D.StudentT)
add("normal_known_mean[ScaledInverseChiSquared]", "normal_known_mean_predictive", D.ScaledInverseChiSquared, grid(nu=[0.3, 0.5, 1, 2, 4, 30, 300, 1e5], sigma2=[1e-4, 0.01, 0.25, 0.7, 1, 7, 100, 1e4, 1e7]),
    MUS, lambda f, k: REALS, lambda x, f, k: ref.student_t(x, f["nu"], k["mu"], f["sigma2"]), False,
    prior=("positive", lambda t, f: ref.scaled_inv_chi2(t, f["nu"], f["sigma2"])), lik=lambda x, t, k: ref.normal(x, k["mu"], t), out=D.StudentT)
for fn, cls, lam in (("normal", D.NormalInverseGamma, "nu"), ("normal", D.NormalGamma, "lam"), ("normal_normal_inverse_gamma", D.NormalInverseGamma, "nu")):
    add(f"{fn}[{cls.__name__}]", f"{fn}_predictive", cls, grid(**{"mu": [-3, -0.3, 0, 0.7, 1, 25.5, 500], lam: [1e-3, 0.1, 0.7, 1, 6, 500, 1e5], "alpha": [0.3, 0.5, 1, 2.2, 30, 1e4], "beta": [1e-3, 0.125, 0.7, 1, 20, 1e4]}),
        [{}], lambda f, k: REALS,
        (lambda lam: lambda x, f, k: ref.student_t(x, 2 * f["alpha"], f["mu"], f["beta"] * (f[lam] + 1) / (f[lam] * f["alpha"])))(lam), False,
        prior=INVG_PRIOR, lik=(lambda lam: lambda x, t, k: ref.normal(x, k["_mu"], t * (1 + 1 / k["_lam"])))(lam), out=D.StudentT)


def compositions(n, d):
    if d == 1:
        yield (n,)
        return
    for i in range(n + 1):
        for r in compositions(n - i, d - 1):
            yield (i, *r)


ALPHAS = [[1, 1], [0.5, 2.0], [1, 1, 1], [0.5, 2.0, 30.0], [3, 1, 2], [1000.0, 0.01, 5], [500.0, 700.0], [1e5, 1.0, 4e4], [1e-3, 2e-3], [170, 900, 20000], [0.25, 1.5, 4, 2], [1, 2, 3, 4, 5]]
for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
    add(fn, f"{fn}_predictive", D.Dirichlet, [{"alpha": np.array(a)} for a in ALPHAS], [{}] + grid(n=[1, 2, 3, 5]),
        lambda f, k: list(compositions(k.get("n", 1), len(f["alpha"]))) + [tuple([k.get("n", 1) + 1] + [0] * (len(f["alpha"]) - 1))],
        lambda x, f, k: ref.dirichlet_multinomial(x, list(map(float, f["alpha"]))) if sum(x) == k.get("n", 1) else NINF, True, out=D.DirichletMultinomial)
