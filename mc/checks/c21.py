"""C21 Equivalent models are interchangeable on every history (bisimulation of pairs of models).

Each pair of equivalent models is run in lockstep: both start from corresponding priors and absorb the same
observations, batch by batch, over every history up to a depth. After every step the states must be related by the
documented conversion of hyperparameters, and in every distinct state the predictive distributions must agree.
"""

import itertools
import math
import warnings

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import ref

ID = "C21"
LEVEL = "model_checking"
TECHNIQUE = "model checking by bisimulation: each pair of models run in lockstep on the real code over every history of batches up to a depth, states related by the conversion and by their predictive laws"
RULE = (
    "distinct (pair of models, prior, known values, history) after which both posteriors were related by the conversion "
    "of hyperparameters and, where both have one, by their predictive distributions"
)
ASSUMPTIONS = [
    "observations of a batch are drawn from an alphabet of three to five values per pair; batches are all multisets up to "
    "size two (also empty ones), and one batch of a hundred observations",
    "agreement up to rounding: relative 1e-9, plus 1e-12 of the largest term that enters a difference of squares",
]
BOUNDS = {
    "quick": "histories of depth 2 over all batches, and of depth 3 over batches of at most one observation; 32 pairs, "
    "6 to 24 priors each; python numbers, NumPy scalars and vectors of all priors x all histories",
    "thorough": "histories of depth 3 over all batches, and of depth 5 over batches of at most one observation",
}


class Side:
    """mk(h): the prior. fn(prior, obs, kn): the update. canon(obj): the shared hyperparameters. pred(obj, kn): its law."""

    def __init__(self, fn, mk, kw, canon, pred=None, extra=None):
        self.fn, self.mk, self.kw, self.canon, self.pred, self.extra = fn, mk, kw, canon, pred, extra

    def update(self, obj, kwargs):
        return getattr(M, self.fn)(prior=obj, **kwargs)


class Pair:
    def __init__(self, name, a, b, priors, knowns, atoms, outcomes=(), discrete=False, lanes=True, empty=True, sizes=(1, 2), scale=None, rtol=1e-9, warns=None, total=None):
        self.name, self.a, self.b = name, a, b
        self.priors, self.knowns, self.atoms, self.outcomes, self.discrete = priors, knowns, atoms, outcomes, discrete
        self.lanes, self.empty, self.sizes, self.scale, self.rtol, self.warns = lanes, empty, sizes, scale, rtol, warns
        self.total = total


def grid(**kw):
    return [dict(zip(kw, v)) for v in itertools.product(*kw.values())]


def get(*names):
    return lambda o: [getattr(o, n) for n in names]


def tot(obs, kn):
    return {"n": len(obs), "x_total": sum(obs)}


def sq(obs, kn):
    return {"n": len(obs), "x_total": sum(obs), "x2_total": sum(o * o for o in obs)}


def law(fn, *known, rename=None, **const):
    rename = rename or {}

    def pred(obj, kn):
        kw = {rename.get(k, k): kn[k] for k in known}
        return getattr(M, fn)(distribution=obj, **kw, **const).dist

    return pred


def density(dist, x, discrete):
    return (dist.pmf if discrete else dist.pdf)(x)


AB = grid(alpha=[1, 0.5, 7.25], beta=[1, 2, 30.5])
REAL = [0, 1, -2.5, 0.1]
POSI = [1, 0.25, 3, 0.1]
NORM = grid(mu=[0, -3, 25.5], sigma=[1, 2, 0.125, 30])
NIG = grid(mu=[0, -3, 25.5], nu=[1, 6, 0.125], alpha=[1, 0.5, 30], beta=[1, 20, 0.125])
XR = [-30.0, -1.0, 0.0, 0.3, 2, 60]
XP = [0.01, 0.3, 1, 2.5, 30]
K = [0, 1, 2, 5, 17]


def sq_scale(h, obs):
    m = np.max(np.abs(np.asarray(h.get("mu", 0), float)))
    return 1 + (m * m + max((o * o for o in obs), default=0)) * (len(obs) + float(np.max(h.get("nu", 1))))


PAIRS = {}


def pair(*a, **k):
    p = Pair(*a, **k)
    PAIRS[p.name] = p


def kn(**vals):
    return grid(**vals)


# -- normal with a known variance ------------------------------------------------------------------
pair(
    "known precision / known variance",
    Side("normal_known_precision", lambda h: D.Normal(**h), lambda o, k: {**tot(o, k), "precision": k["precision"]}, get("mu", "sigma"),
         law("normal_known_precision_predictive", "precision")),
    Side("normal_known_variance", lambda h: D.Normal(**h), lambda o, k: {**tot(o, k), "var": 1 / k["precision"]}, get("mu", "sigma"),
         lambda o, k: M.normal_known_variance_predictive(var=1 / k["precision"], distribution=o).dist),
    NORM, kn(precision=[1, 4, 0.25, 0.01, 3]), REAL, XR,
)
# -- Bernoulli trials ------------------------------------------------------------------------------
pair(
    "bernoulli / binomial of one trial",
    Side("bernoulli_beta", lambda h: D.Beta(**h), lambda o, k: {"x": o[0]}, get("alpha", "beta"), law("bernoulli_beta_predictive")),
    Side("binomial_beta", lambda h: D.Beta(**h), lambda o, k: {"n": 1, "x": o[0]}, get("alpha", "beta"), law("binomial_beta_predictive", n=1)),
    AB, [{}], [0, 1], [0, 1, 2, -1], True, empty=False, sizes=(1,),
)
for n in (1, 4):
    pair(
        f"binomial / multinomial of two categories [n={n}]",
        Side("binomial_beta", lambda h: D.Beta(**h), lambda o, k: {"n": sum(a for a, _ in o), "x": sum(b for _, b in o)}, get("alpha", "beta"),
             (lambda n: lambda o, k: lambda x: M.binomial_beta_predictive(n=n, distribution=o).dist.pmf(x))(n)),
        Side("multinomial_dirichlet", lambda h: D.Dirichlet(alpha=np.array([h["alpha"], h["beta"]])),
             lambda o, k: {"x": np.array([sum(b for _, b in o), sum(a - b for a, b in o)])}, lambda o: list(o.alpha),
             (lambda n: lambda o, k: lambda x: M.multinomial_dirichlet_predictive(distribution=o, n=n).dist.pmf([x, n - x]))(n)),
        AB, [{}], [(1, 0), (1, 1), (5, 2), (7, 7)], list(range(n + 1)), True, lanes=False,
    )
pair(
    "binomial / negative binomial on failures and successes",
    Side("binomial_beta", lambda h: D.Beta(**h), lambda o, k: {"n": sum(k["r"] + x for x in o), "x": k["r"] * len(o)}, get("alpha", "beta")),
    Side("negative_binomial_beta", lambda h: D.Beta(**h), lambda o, k: {"r": k["r"], "n": len(o), "x": sum(o)}, get("alpha", "beta")),
    AB, kn(r=[1, 3, 12]), [0, 1, 5, 60],
)
# -- Dirichlet -------------------------------------------------------------------------------------
DIR = [{"alpha": np.array(a)} for a in ([1, 1], [1, 1, 1], [0.5, 2, 30.25], [3, 1, 2], [0.25, 1.5, 4, 2], [1000.0, 0.01, 5])]


def onehot(o, d):
    return np.array([sum(i == j for i in o) for j in range(d)])


for n in (None, 1, 3):
    nkw = {} if n is None else {"n": n}
    pair(
        f"categorical / multinomial [n={n}]",
        Side("categorical_dirichlet", lambda h: D.Dirichlet(**h), lambda o, k: {"x": o}, get("alpha"),
             (lambda nkw: lambda o, k: lambda x: M.categorical_dirichlet_predictive(distribution=o, **nkw).dist.pmf(x))(nkw), extra="onehot"),
        Side("multinomial_dirichlet", lambda h: D.Dirichlet(**h), lambda o, k: {"x": o}, get("alpha"),
             (lambda nkw: lambda o, k: lambda x: M.multinomial_dirichlet_predictive(distribution=o, **nkw).dist.pmf(x))(nkw), extra="onehot"),
        DIR, [{}], [0, 1], "counts", True, lanes=False, total=n or 1,
    )
# -- geometric -------------------------------------------------------------------------------------
pair(
    "one-start / zero-start geometric",
    Side("geometric_beta", lambda h: D.Beta(**h), lambda o, k: {**tot(o, k), "one_start": True}, get("alpha", "beta"),
         lambda o, k: lambda x: M.geometric_beta_predictive(distribution=o, one_start=True).dist.pmf(x)),
    Side("geometric_beta", lambda h: D.Beta(**h), lambda o, k: {"n": len(o), "x_total": sum(o) - len(o), "one_start": False}, get("alpha", "beta"),
         lambda o, k: lambda x: M.geometric_beta_predictive(distribution=o, one_start=False).dist.pmf(x - 1)),
    AB, [{}], [1, 2, 5, 40], [0, 1, 2, 5, 17], True,
)
pair(
    "default / one-start geometric",
    Side("geometric_beta", lambda h: D.Beta(**h), tot, get("alpha", "beta"), law("geometric_beta_predictive")),
    Side("geometric_beta", lambda h: D.Beta(**h), lambda o, k: {**tot(o, k), "one_start": True}, get("alpha", "beta"), law("geometric_beta_predictive", one_start=True)),
    AB, [{}], [1, 2, 5, 40], K, True,
)
pair(
    "zero-start geometric / negative binomial of one",
    Side("geometric_beta", lambda h: D.Beta(**h), lambda o, k: {**tot(o, k), "one_start": False}, get("alpha", "beta"),
         law("geometric_beta_predictive", one_start=False)),
    Side("negative_binomial_beta", lambda h: D.Beta(**h), lambda o, k: {"r": 1, "n": len(o), "x": sum(o)}, get("alpha", "beta"),
         law("negative_binomial_beta_predictive", r=1)),
    AB, [{}], [0, 1, 4, 39], K, True,
)
# -- gamma family ----------------------------------------------------------------------------------
pair(
    "gamma of shape one / exponential",
    Side("gamma_known_shape", lambda h: D.Gamma(**h), lambda o, k: {**tot(o, k), "alpha": k["shape"]}, get("alpha", "beta"),
         law("gamma_known_shape_predictive", "shape", rename={"shape": "alpha"})),
    Side("exponential_gamma", lambda h: D.Gamma(**h), tot, get("alpha", "beta"), law("exponential_gamma_predictive")),
    AB, [{"shape": 1}, {"shape": 1.0}], POSI, XP,
)
pair(
    "inverse gamma / gamma on reciprocals",
    Side("inverse_gamma_known_rate", lambda h: D.Gamma(**h), lambda o, k: {"n": len(o), "reciprocal_x_total": sum(1 / x for x in o), "alpha": k["alpha"]}, get("alpha", "beta")),
    Side("gamma_known_shape", lambda h: D.Gamma(**h), lambda o, k: {"n": len(o), "x_total": sum(1 / x for x in o), "alpha": k["alpha"]}, get("alpha", "beta")),
    AB, kn(alpha=[1, 0.5, 4, 12.25]), POSI,
)
pair(
    "pareto / exponential on log excesses",
    Side("pareto_gamma", lambda h: D.Gamma(**h), lambda o, k: {"n": len(o), "ln_x_total": sum(math.log(x) for x in o), "x_m": k["x_m"]}, get("alpha", "beta")),
    Side("exponential_gamma", lambda h: D.Gamma(**h), lambda o, k: {"n": len(o), "x_total": sum(math.log(x / k["x_m"]) for x in o)}, get("alpha", "beta")),
    AB, kn(x_m=[1, 0.5, 3, 0.1]), [3, 3.5, 10, 1000],
)
pair(
    "weibull / exponential on powers",
    Side("weibull_inverse_gamma_known_shape", lambda h: D.InverseGamma(**h), lambda o, k: {"n": len(o), "x_beta_total": sum(x ** k["k"] for x in o)}, get("alpha", "beta")),
    Side("exponential_gamma", lambda h: D.Gamma(**h), lambda o, k: {"n": len(o), "x_total": sum(x ** k["k"] for x in o)}, get("alpha", "beta")),
    AB, kn(k=[1, 2, 0.5, 3.5]), POSI,
)
pair(
    "poisson counts of a time / exponential waiting times",
    Side("poisson_gamma", lambda h: D.Gamma(**h), lambda o, k: {"x_total": len(o), "n": sum(o)}, get("alpha", "beta")),
    Side("exponential_gamma", lambda h: D.Gamma(**h), tot, get("alpha", "beta")),
    AB, [{}], POSI,
)
pair(
    "poisson predictive of several trials / of one trial of a scaled rate",
    Side("poisson_gamma", lambda h: D.Gamma(**h), tot, get("alpha", "beta"), law("poisson_gamma_predictive", "m", rename={"m": "n"})),
    Side("poisson_gamma", lambda h: D.Gamma(**h), tot, get("alpha", "beta"),
         lambda o, k: M.poisson_gamma_predictive(distribution=D.Gamma(alpha=o.alpha, beta=o.beta / k["m"])).dist),
    AB, kn(m=[1, 2, 7, 0.5]), [0, 1, 4, 30], K, True,
)
# -- normal variance -------------------------------------------------------------------------------
VAR = [{"alpha": a, "beta": b, "mu": m} for a in (1, 0.5, 7.25) for b in (1, 2, 30.5) for m in (0, -3, 0.3)]


def var_mk(h):
    return D.InverseGamma(alpha=h["alpha"], beta=h["beta"])


def var_kw(o, k):
    return {**sq(o, k), "mu": k["mean"]}


MEANS = kn(mean=[0, 2, -7.5])
pair(
    "scaled inverse chi squared / inverse gamma",
    Side("normal_known_mean", lambda h: D.ScaledInverseChiSquared(nu=2 * h["alpha"], sigma2=h["beta"] / h["alpha"]), var_kw,
         lambda o: [o.nu / 2, o.nu * o.sigma2 / 2], law("normal_known_mean_predictive", "mean", rename={"mean": "mu"})),
    Side("normal_known_mean", lambda h: D.InverseGamma(**h), var_kw, get("alpha", "beta"), law("normal_known_mean_predictive", "mean", rename={"mean": "mu"})),
    AB, MEANS, REAL, XR, scale=lambda h, o: 1 + 64 * (len(o) + 1),
)
pair(
    "inverse Wishart in one dimension / inverse gamma",
    Side("multivariate_normal_known_mean", lambda h: D.InverseWishart(nu=2 * h["alpha"], psi=np.array([[2 * h["beta"]]])),
         lambda o, k: {"X": np.array(o, float).reshape(-1, 1), "mu": np.array([k["mean"]])}, lambda o: [o.nu / 2, o.psi / 2]),
    Side("normal_known_mean", lambda h: D.InverseGamma(**h), var_kw, get("alpha", "beta")),
    AB, MEANS, REAL, lanes=False, scale=lambda h, o: 1 + 64 * (len(o) + 1),
)
# -- normal mean and variance ----------------------------------------------------------------------
NCANON = get("mu", "nu", "alpha", "beta")
GCANON = get("mu", "lam", "alpha", "beta")


def ng(h):
    return D.NormalGamma(mu=h["mu"], lam=h["nu"], alpha=h["alpha"], beta=h["beta"])


def nig(h):
    return D.NormalInverseGamma(**h)


def lnstats(o, k):
    return {"n": len(o), "ln_x_total": sum(math.log(x) for x in o), "ln_x2_total": sum(math.log(x) ** 2 for x in o)}


pair("normal gamma / normal inverse gamma", Side("normal", ng, sq, GCANON, law("normal_predictive")), Side("normal", nig, sq, NCANON, law("normal_predictive")),
     NIG, [{}], REAL, XR, scale=sq_scale)
pair("log-normal: normal gamma / normal inverse gamma", Side("log_normal", ng, lnstats, GCANON, law("normal_predictive")),
     Side("log_normal", nig, lnstats, NCANON, law("normal_predictive")), NIG, [{}], POSI, XR, scale=sq_scale)
for mk, canon in ((ng, GCANON), (nig, NCANON)):
    pair(
        f"log-normal / normal on logs [{'NormalGamma' if mk is ng else 'NormalInverseGamma'}]",
        Side("log_normal", mk, lnstats, canon, law("normal_predictive")),
        Side("normal", mk, lambda o, k: {"n": len(o), "x_total": sum(math.log(x) for x in o), "x2_total": sum(math.log(x) ** 2 for x in o)}, canon, law("normal_predictive")),
        NIG[::3], [{}], POSI, XR, scale=sq_scale,
    )
pair("deprecated names / normal", Side("normal_normal_inverse_gamma", nig, sq, NCANON, law("normal_normal_inverse_gamma_predictive")),
     Side("normal", nig, sq, NCANON, law("normal_predictive")), NIG[::2], [{}], REAL, XR, warns=True, scale=sq_scale)


def mvrow(o):
    return np.array(o, float).reshape(-1, 1)


pair(
    "normal inverse Wishart in one dimension / normal inverse gamma",
    Side("multivariate_normal", lambda h: D.NormalInverseWishart(mu=np.array([h["mu"]]), kappa=h["nu"], nu=2 * h["alpha"], psi=np.array([[2 * h["beta"]]])),
         lambda o, k: {"X": mvrow(o)}, lambda o: [o.mu, o.kappa, o.nu / 2, o.psi / 2],
         lambda o, k: lambda x: M.multivariate_normal_predictive(distribution=o).dist.pdf([x])),
    Side("normal", nig, sq, NCANON, lambda o, k: lambda x: M.normal_predictive(distribution=o).dist.pdf(x)),
    NIG[::2], [{}], REAL, XR, lanes=False, scale=sq_scale,
)
pair(
    "regression on an intercept / normal",
    Side("linear_regression", lambda h: D.NormalInverseGamma(mu=np.array([h["mu"]]), delta_inverse=np.array([[1 / h["nu"]]]), alpha=h["alpha"], beta=h["beta"]),
         lambda o, k: {"X": np.ones((len(o), 1)), "y": np.array(o, float)}, lambda o: [o.mu, 1 / o.delta_inverse, o.alpha, o.beta],
         lambda o, k: lambda x: M.linear_regression_predictive(distribution=o, X=np.ones((1, 1))).dist.pdf([x])),
    Side("normal", nig, sq, NCANON, lambda o, k: lambda x: M.normal_predictive(distribution=o).dist.pdf(x)),
    NIG[::2], [{}], REAL, XR, lanes=False, scale=sq_scale,
)
pair(
    "regression on an intercept, several outcomes / normal",
    Side("linear_regression", lambda h: D.NormalInverseGamma(mu=np.array([h["mu"]]), delta_inverse=np.array([[1 / h["nu"]]]), alpha=h["alpha"], beta=h["beta"]),
         lambda o, k: {"X": np.ones((len(o), 1)), "y": np.array(o, float)}, lambda o: [o.mu, 1 / o.delta_inverse, o.alpha, o.beta],
         lambda o, k: lambda x: M.linear_regression_predictive(distribution=o, X=np.ones((3, 1)))[1].dist.pdf(x)),
    Side("normal", nig, sq, NCANON, lambda o, k: lambda x: M.normal_predictive(distribution=o).dist.pdf(x)),
    NIG[::4], [{}], REAL, XR, lanes=False, scale=sq_scale,
)
# -- multivariate normal with a known covariance ---------------------------------------------------


def mean_kw(o):
    return {"n": len(o), "x_bar": np.array([sum(o) / max(len(o), 1)])}


def mvnorm(h):
    return D.MultivariateNormal(mu=np.array([h["mu"]]), cov=np.array([[h["sigma"] ** 2]]))


pair(
    "multivariate known covariance in one dimension / known variance",
    Side("multivariate_normal_known_covariance", mvnorm, lambda o, k: {**mean_kw(o), "cov": np.array([[k["var"]]])}, lambda o: [o.mu, o.cov**0.5],
         lambda o, k: lambda x: M.multivariate_normal_known_covariance_predictive(distribution=o, cov=np.array([[k["var"]]])).dist.pdf([x])),
    Side("normal_known_variance", lambda h: D.Normal(**h), lambda o, k: {**tot(o, k), "var": k["var"]}, get("mu", "sigma"),
         lambda o, k: lambda x: M.normal_known_variance_predictive(var=k["var"], distribution=o).dist.pdf(x)),
    NORM[::2], kn(var=[1, 4, 0.25]), REAL, XR, lanes=False,
)
pair(
    "multivariate known precision in one dimension / known precision",
    Side("multivariate_normal_known_precision", mvnorm, lambda o, k: {**mean_kw(o), "precision": np.array([[k["precision"]]])}, lambda o: [o.mu, o.cov**0.5],
         lambda o, k: lambda x: M.multivariate_normal_known_precision_predictive(distribution=o, precision=np.array([[k["precision"]]])).dist.pdf([x])),
    Side("normal_known_precision", lambda h: D.Normal(**h), lambda o, k: {**tot(o, k), "precision": k["precision"]}, get("mu", "sigma"),
         lambda o, k: lambda x: M.normal_known_precision_predictive(precision=k["precision"], distribution=o).dist.pdf(x)),
    NORM[::2], kn(precision=[1, 4, 0.25]), REAL, XR, lanes=False,
)
MVPRIORS = [
    {"mu": np.array(m), "cov": np.array(c, float)}
    for m, c in (
        ([0, 0], [[1, 0], [0, 1]]), ([1, -3.5], [[2, 0.75], [0.75, 0.5]]), ([1, -3.5], [[4, -1], [-1, 3]]),
        ([0, 1, -2], [[2, 0.5, -0.25], [0.5, 1, 0.25], [-0.25, 0.25, 3]]),
    )
]
MVCOV = {2: [[[1, 0], [0, 1]], [[4, -1], [-1, 3]]], 3: [[[2, 0.5, -0.25], [0.5, 1, 0.25], [-0.25, 0.25, 3]]]}


def mvobs(o, d):
    rows = np.array([[x, x * x / 2 - 1, -x][:d] for x in o], float).reshape(-1, d)
    return {"n": len(o), "x_bar": rows.sum(axis=0) / max(len(o), 1)}


for d, ci in ((2, 0), (2, 1), (3, 0)):
    C = np.array(MVCOV[d][ci], float)
    PR = np.linalg.inv(C)
    pair(
        f"multivariate known precision / known covariance [d={d}, {ci}]",
        Side("multivariate_normal_known_precision", lambda h: D.MultivariateNormal(**h), (lambda d, PR: lambda o, k: {**mvobs(o, d), "precision": PR})(d, PR), get("mu", "cov"),
             (lambda d, PR: lambda o, k: lambda x: M.multivariate_normal_known_precision_predictive(distribution=o, precision=PR).dist.pdf([x, -x / 2, 1][:d]))(d, PR)),
        Side("multivariate_normal_known_covariance", lambda h: D.MultivariateNormal(**h), (lambda d, C: lambda o, k: {**mvobs(o, d), "cov": C})(d, C), get("mu", "cov"),
             (lambda d, C: lambda o, k: lambda x: M.multivariate_normal_known_covariance_predictive(distribution=o, cov=C).dist.pdf([x, -x / 2, 1][:d]))(d, C)),
        [p for p in MVPRIORS if len(p["mu"]) == d], [{}], REAL, [-2.0, 0, 1.5], lanes=False,
    )


# the coordinates of a multivariate normal with a diagonal covariance are independent normals
pair(
    "independent coordinates / vector of normals",
    Side("multivariate_normal_known_covariance", lambda h: D.MultivariateNormal(mu=np.array([h["mu"], 1.0]), cov=np.diag([h["sigma"] ** 2, 4.0])),
         lambda o, k: {**mvobs(o, 2), "cov": np.diag([k["var"], 2.0])}, lambda o: [o.mu, np.diag(o.cov) ** 0.5, o.cov[0, 1], o.cov[1, 0]],
         lambda o, k: lambda x: M.multivariate_normal_known_covariance_predictive(distribution=o, cov=np.diag([k["var"], 2.0])).dist.pdf([x, -x / 2])),
    Side("normal_known_variance", lambda h: D.Normal(mu=np.array([h["mu"], 1.0]), sigma=np.array([h["sigma"], 2.0])),
         lambda o, k: {"n": len(o), "x_total": mvobs(o, 2)["x_bar"] * len(o), "var": np.array([k["var"], 2.0])}, lambda o: [o.mu, o.sigma, 0.0, 0.0],
         lambda o, k: lambda x: np.prod(M.normal_known_variance_predictive(var=np.array([k["var"], 2.0]), distribution=o).dist.pdf([x, -x / 2]))),
    NORM[::2], kn(var=[1, 4, 0.25]), REAL, [-2.0, 0, 1.5], lanes=False,
)


# -- gamma likelihood with a known rate: the log kernels differ by a constant ----------------------
pair(
    "gamma of known rate / gamma at that rate",
    Side("gamma_known_rate", lambda h: D.GammaKnownRateProportional(a=h["p"], b=h["r"], c=h["r"]),
         lambda o, k: {"n": len(o), "x_prod": math.prod(o), "beta": k["beta"]}, lambda o: [o.a, o.b, o.c],
         lambda o, k: lambda x: o.approx_log_likelihood(x, k["beta"]) - o.approx_log_likelihood(1.5, k["beta"])),
    Side("gamma", lambda h: D.GammaProportional(p=h["p"], q=h["q"], r=h["r"], s=h["r"]),
         lambda o, k: {"n": len(o), "x_prod": math.prod(o), "x_total": sum(o)}, lambda o: [o.p, o.r, o.s],
         lambda o, k: lambda x: o.approx_log_likelihood(x, k["beta"]) - o.approx_log_likelihood(1.5, k["beta"])),
    grid(p=[1, 0.25, 6], q=[1, 5], r=[1, 2.5]), kn(beta=[1, 0.5, 6]), POSI, [0.25, 1, 4, 20.5], lanes=True,
)


# -- exploration -----------------------------------------------------------------------------------


def batches(p, full):
    out = [()] if p.empty else []
    for size in p.sizes if full else (1,):
        out += itertools.combinations_with_replacement(p.atoms, size)
    if full and len(p.sizes) > 1:
        out.append(tuple(p.atoms[i % len(p.atoms)] for i in range(100)))
    return out


def histories(p, tier):
    deep = {"quick": (2, 3), "thorough": (3, 5)}[tier]
    seen = set()
    for full, depth in ((True, deep[0]), (False, deep[1])):
        bs = batches(p, full)
        for d in range(depth + 1):
            for h in itertools.product(bs, repeat=d):
                if h not in seen:
                    seen.add(h)
                    yield h


def units(tier):
    out = []
    for name, p in PAIRS.items():
        parts = 1 if tier == "quick" else min(len(p.priors), 8)
        parts = max(parts, 3 if "Dirichlet" in name or not p.lanes else 2)
        parts = min(parts, len(p.priors))
        for i in range(parts):
            out.append({"pair": name, "part": [i, parts]})
        if p.lanes:
            out.append({"pair": name, "part": "lanes"})
    return out


def one_kwargs(p, side, prior, batch, known, memo):
    key = (id(side), repr(known), batch, len(np.atleast_1d(prior.get("alpha", 0))))
    if key not in memo:
        obs = list(batch)
        if side.extra == "onehot":
            obs = onehot(obs, len(prior["alpha"]))
        memo[key] = side.kw(obs, known)
    return memo[key]


def np_scalars(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, bool) or isinstance(v, np.ndarray):
            out[k] = v
        elif isinstance(v, int):
            out[k] = np.int64(v)
        elif isinstance(v, float):
            out[k] = np.float64(v)
        else:
            out[k] = v
    return out


def flat(values):
    return [np.asarray(v, float).reshape(-1) if np.size(v) > 1 else np.asarray(v, float).reshape(1) for v in values]


def agree(ga, gb, rtol, atol):
    if len(ga) != len(gb):
        return f"{len(ga)} and {len(gb)} hyperparameters"
    for i, (u, v) in enumerate(zip(ga, gb)):
        if u.shape != v.shape:
            return f"hyperparameter {i}: shapes {u.shape} and {v.shape}"
        if not ref.allclose(u, v, rtol, atol):
            return f"hyperparameter {i}: {u} and {v}"
    return None


def step(p, side, obj, kwargs):
    if not p.warns or side is p.b:
        return side.update(obj, kwargs)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        out = side.update(obj, kwargs)
    if not any(issubclass(x.category, DeprecationWarning) for x in w):
        raise AssertionError(f"{side.fn} gave no DeprecationWarning")
    return out


def outcomes_of(p, prior):
    if p.outcomes == "counts":
        d = len(prior["alpha"])
        return [x for x in itertools.product(range(p.total + 1), repeat=d) if sum(x) == p.total]
    return p.outcomes


def predictions(p, side, obj, known, xs, scalar):
    """density (and cumulative probability where there is one) at every outcome"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        d = side.pred(obj, known)
    if p.warns and side is p.a and not any(issubclass(x.category, DeprecationWarning) for x in w):
        raise AssertionError("the deprecated predictive gave no DeprecationWarning")
    if hasattr(d, "pdf") or hasattr(d, "pmf"):
        points = [np.array(xs, float)] if scalar else xs  # all outcomes at once, unless the parameters are vectors
        out = [np.asarray(density(d, x, p.discrete), float) for x in points]
        out += [np.asarray(d.cdf(x), float) for x in points]
    else:
        out = [np.asarray(d(x), float) for x in xs]
    return [np.squeeze(v) for v in out]


def judge(p, known, prior, hist, a, b, ctx, seen, form, scale):
    key = p.name
    ga, gb = flat(p.a.canon(a)), flat(p.b.canon(b))
    bad = agree(ga, gb, p.rtol, 1e-12 * scale)
    ctx.eval(2, (key, repr(prior), repr(known), hist, form))
    if bad:
        ctx.fail(f"{key}:hyperparameters", f"{key}: after {short(hist)} from {prior} with {known} ({form}): {bad}", posterior_a=a, posterior_b=b)
        return
    ctx.trace()
    if not (p.a.pred and p.b.pred):
        return
    sig = tuple(tuple(float(f"{x:.10g}") for x in g) for g in ga)
    if (sig, form) in seen:
        return
    seen.add((sig, form))
    xs = outcomes_of(p, prior)
    with ctx.guard(f"{key}:predictive", f"{key}: predictive after {short(hist)} from {prior} with {known} ({form})"):
        pa, pb = (predictions(p, s, o, known, xs, not form.startswith("vec")) for s, o in ((p.a, a), (p.b, b)))
        ctx.eval(2 * len(pa))
        # the width of a density inherits the rounding of the differences of squares above
        loss = max(1e-9, 1e-12 * scale / max(1e-300, float(np.min(np.abs(gb[-1])))))
        for i, (u, v) in enumerate(zip(pa, pb)):
            if not ref.allclose(u, v, 1e-6 * 1 if loss <= 1e-7 else min(1e-2, 50 * loss), 1e-12):
                ctx.fail(f"{key}:predictive", f"{key}: predictive after {short(hist)} from {prior} with {known} ({form}) at {xs if u.size == len(xs) else xs[i % len(xs)]}: {u} and {v}",
                         posterior_a=a, posterior_b=b)
                return


def short(hist):
    return [b if len(b) < 6 else f"{len(b)} observations of {sorted(set(b))}" for b in hist]


def scale_of(p, prior, hist):
    return p.scale(prior, [o for b in hist for o in b]) if p.scale else 1.0


def run(unit, ctx):
    p = PAIRS[unit["pair"]]
    if unit["part"] == "lanes":
        return lanes(p, ctx)
    i, parts = unit["part"]
    hs = list(histories(p, ctx.tier))
    for j, prior in enumerate(p.priors):
        if j % parts != i:
            continue
        for known in p.knowns:
            seen, memo = set(), {}
            for form in ("python", "numpy"):
                conv = np_scalars if form == "numpy" else dict
                tree = {}
                with ctx.guard(f"{p.name}:prior", f"{p.name}: prior {prior}"):
                    tree[()] = (p.a.mk(conv(prior)), p.b.mk(conv(prior)))
                for h in hs:
                    if form == "numpy" and len(h) > 1:
                        continue
                    if h[:-1] not in tree and h:
                        continue
                    with ctx.guard(f"{p.name}:step", f"{p.name}: {short(h)} from {prior} with {known} ({form})"):
                        if h:
                            a, b = tree[h[:-1]]
                            k = conv(known)
                            ka = conv(one_kwargs(p, p.a, prior, h[-1], known, memo))
                            kb = conv(one_kwargs(p, p.b, prior, h[-1], known, memo))
                            a, b = step(p, p.a, a, ka), step(p, p.b, b, kb)
                            tree[h] = (a, b)
                            ctx.step(2)
                        elif () not in tree:
                            continue
                        a, b = tree[h]
                        ctx.state((p.name, j, repr(known), h, form))
                        judge(p, conv(known), prior, h, a, b, ctx, seen, form, scale_of(p, prior, h))
    ctx.sample(pair=p.name, prior=p.priors[i % len(p.priors)], known=p.knowns[-1], history=[list(map(repr, b[:3])) for b in hs[-1]], histories=len(hs))


def lanes(p, ctx):
    """all priors at once, then all priors x all histories of the same length at once, as vectors"""
    names = list(p.priors[0])
    hs2 = [h for h in itertools.product(batches(p, True), repeat=2)]
    for known in p.knowns:
        for shape in ("priors", "priors x histories"):
            def spread(key):
                v = np.array([q[key] for q in p.priors])
                return v if shape == "priors" else v[:, None] + np.zeros(len(hs2), dtype=v.dtype)
            prior = {k: spread(k) for k in names}
            todo = [[h] for h in hs2[:: max(1, len(hs2) // 40)]] if shape == "priors" else [hs2]
            for group in todo:
                with ctx.guard(f"{p.name}:lanes", f"{p.name}: vectors of {shape} with {known}"):
                    a, b = p.a.mk(prior), p.b.mk(prior)
                    seen = set()
                    for depth in (0, 1):
                        ka, kb = stacked(p, p.a, group, depth, known), stacked(p, p.b, group, depth, known)
                        a, b = step(p, p.a, a, ka), step(p, p.b, b, kb)
                        ctx.step(2)
                    label = tuple(group[0]) if len(group) == 1 else ("all",)
                    ctx.state((p.name, repr(known), shape, label))
                    worst = max(scale_of(p, {k: np.max(np.abs(v)) for k, v in prior.items()}, h) for h in group)
                    judge(p, known, {k: "vector" for k in names}, label if len(group) == 1 else (), a, b, ctx, seen, f"vectors of {shape}", worst)


def stacked(p, side, group, depth, known):
    kws = [side.kw(list(h[depth]), known) for h in group]
    if len(group) == 1:
        return kws[0]
    return {k: np.array([kw[k] for kw in kws]) if len({repr(kw[k]) for kw in kws}) > 1 else kws[0][k] for k in kws[0]}
