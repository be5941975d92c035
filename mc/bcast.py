"""Every scalar-parameter posterior and predictive function as (function, argument table), for call-shape exploration.

safe: per argument six values such that every combination is valid; empty: values of the data arguments for a position
with no observations; target: name of the argument taking the prior or distribution."""

from conjugate import distributions as D

CLS = {
    "Beta": {"alpha": [1, 0.5, 3, 20.25, 2, 7], "beta": [2, 1, 0.25, 5, 30, 4]},
    "Gamma": {"alpha": [1, 0.5, 3, 20.25, 2, 7], "beta": [2, 1, 0.25, 5, 30, 4]},
    "InverseGamma": {"alpha": [1, 0.5, 3, 20.25, 2, 7], "beta": [2, 1, 0.25, 5, 30, 4]},
    "ScaledInverseChiSquared": {"nu": [1, 0.5, 3, 20.25, 2, 7], "sigma2": [2, 1, 0.25, 5, 30, 4]},
    "Normal": {"mu": [0, -3, 2.5, 10, -0.25, 4], "sigma": [1, 0.25, 2, 30, 5, 3]},
    "NormalInverseGamma": {"mu": [0, -3, 2.5, 10, -0.25, 4], "nu": [1, 0.25, 6, 2, 3, 9], "alpha": [1, 0.5, 3, 20.25, 2, 7], "beta": [2, 1, 0.25, 5, 30, 4]},
    "NormalGamma": {"mu": [0, -3, 2.5, 10, -0.25, 4], "lam": [1, 0.25, 6, 2, 3, 9], "alpha": [1, 0.5, 3, 20.25, 2, 7], "beta": [2, 1, 0.25, 5, 30, 4]},
    "Pareto": {"x_m": [1, 0.25, 5, 2, 7, 3], "alpha": [1, 0.5, 8, 2, 3, 30]},
    "GammaProportional": {"p": [1, 0.5, 8, 2, 3, 30], "q": [1, 0.25, 6, 2, 3, 9], "r": [1, 3, 2, 5, 2.5, 4], "s": [1, 2.5, 7, 2, 3, 9]},
    "GammaKnownRateProportional": {"a": [1, 0.5, 8, 2, 3, 30], "b": [1, 3, 2, 5, 2.5, 4], "c": [1, 2.5, 7, 2, 3, 9]},
    "BetaProportional": {"p": [1, 0.5, 0.03125, 0.25, 0.75, 0.125], "q": [1, 0.25, 0.5, 0.75, 0.0625, 0.375], "k": [1, 4, 2.5, 3, 2, 9]},
    "VonMisesKnownConcentration": {"a": [1, 0.25, 6, 2, 3, 0.5], "b": [0, 0.5, 2, 3.5, 5.75, 1]},
    "VonMisesKnownDirectionProportional": {"c": [0, 1, 5, 2, 3, 9], "r": [0, 0.5, 4, 1, 2, 7]},
    "BetaBinomial": {"n": [100, 200, 50, 1000, 75, 60], "alpha": [1, 0.5, 3, 20.25, 2, 7], "beta": [2, 1, 0.25, 5, 30, 4]},
}


class Call:
    def __init__(self, fn, cls, args, empty, target, const):
        self.fn, self.cls, self.args, self.empty, self.target, self.const = fn, cls, args, empty, target, const
        self.fields = CLS[cls]
        self.name = f"{fn}[{cls}]" + (f"{const}" if const else "")
        # name of a site -> values; prior fields are prefixed
        self.sites = {**{f"{target}.{k}": v for k, v in self.fields.items()}, **args}

    def invoke(self, M, values, ctor=None):
        f = {k: values[f"{self.target}.{k}"] for k in self.fields}
        kw = {k: values[k] for k in self.args}
        obj = (ctor or getattr(D, self.cls))(**f)
        return getattr(M, self.fn)(**{self.target: obj}, **kw, **self.const)


CALLS = {}


def add(fn, classes, args=None, empty=None, target="prior", **const):
    for c in classes.split():
        k = Call(fn, c, args or {}, empty, target, const)
        CALLS[k.name] = k


COUNT = [8, 9, 10, 30, 50, 100]
SMALL = [0, 1, 2, 7, 8, 5]
N = [1, 2, 5, 10, 3, 40]
X = [3, 0.5, 12, 40.25, 7, 1]
XR = [3, -0.5, 12, -40.25, 0, 1]
BIG = [1000, 2000.5, 1700, 5000, 1e4, 3e3]
KNOWN = [1, 0.5, 7, 2, 3, 9]

add("binomial_beta", "Beta", {"n": COUNT, "x": SMALL}, {"n": 0, "x": 0})
add("bernoulli_beta", "Beta", {"x": [0, 1, 1, 0, 1, 0]})
add("negative_binomial_beta", "Beta", {"r": [1, 3, 2, 5, 4, 30], "n": N, "x": SMALL}, {"n": 0, "x": 0, "r": 3})
for o in ({}, {"one_start": True}, {"one_start": False}):
    add("geometric_beta", "Beta", {"x_total": [100, 120, 55, 60, 41, 1000], "n": N}, {"x_total": 0, "n": 0}, **o)
    add("geometric_beta_predictive", "Beta", target="distribution", **o)
add("hypergeometric_beta_binomial", "BetaBinomial", {"x_total": SMALL, "n": COUNT})
add("poisson_gamma", "Gamma", {"x_total": SMALL, "n": N}, {"x_total": 0, "n": 0})
add("exponential_gamma", "Gamma", {"x_total": X, "n": N}, {"x_total": 0, "n": 0})
add("gamma_known_shape", "Gamma", {"x_total": X, "n": N, "alpha": KNOWN}, {"x_total": 0, "n": 0, "alpha": 7})
add("inverse_gamma_known_rate", "Gamma", {"reciprocal_x_total": X, "n": N, "alpha": KNOWN}, {"reciprocal_x_total": 0, "n": 0, "alpha": 7})
add("normal_known_variance", "Normal", {"x_total": XR, "n": N, "var": KNOWN}, {"x_total": 0, "n": 0, "var": 2})
add("normal_known_precision", "Normal", {"x_total": XR, "n": N, "precision": KNOWN}, {"x_total": 0, "n": 0, "precision": 2})
add("normal_known_mean", "InverseGamma ScaledInverseChiSquared", {"x_total": XR, "x2_total": BIG, "n": N, "mu": XR}, {"x_total": 0, "x2_total": 0, "n": 0, "mu": 3})
add("normal", "NormalInverseGamma NormalGamma", {"x_total": XR, "x2_total": BIG, "n": N}, {"x_total": 0, "x2_total": 0, "n": 0})
add("normal_normal_inverse_gamma", "NormalInverseGamma", {"x_total": XR, "x2_total": BIG, "n": N}, {"x_total": 0, "x2_total": 0, "n": 0})
add("log_normal", "NormalInverseGamma NormalGamma", {"ln_x_total": XR, "ln_x2_total": BIG, "n": N}, {"ln_x_total": 0, "ln_x2_total": 0, "n": 0})
add("uniform_pareto", "Pareto", {"x_max": [3, 0.5, 1, 7, 4, 10], "n": N}, {"x_max": 0, "n": 0})
add("pareto_gamma", "Gamma", {"n": N, "ln_x_total": [50, 61.5, 100, 75, 80, 99], "x_m": [1, 0.5, 2, 3, 0.25, 1.5]}, {"n": 0, "ln_x_total": 0, "x_m": 2})
add("weibull_inverse_gamma_known_shape", "InverseGamma", {"n": N, "x_beta_total": X}, {"n": 0, "x_beta_total": 0})
add("gamma", "GammaProportional", {"x_total": X, "x_prod": [1, 2, 0.5, 30, 7, 3], "n": N}, {"x_total": 0, "x_prod": 1, "n": 0})
add("gamma_known_rate", "GammaKnownRateProportional", {"x_prod": [1, 2, 0.5, 30, 7, 3], "n": N, "beta": KNOWN}, {"x_prod": 1, "n": 0, "beta": 2})
add("beta", "BetaProportional", {"x_prod": [1, 0.5, 0.25, 0.125, 0.75, 0.0625], "one_minus_x_prod": [0.5, 0.25, 1, 0.125, 0.75, 0.875], "n": N}, {"x_prod": 1, "one_minus_x_prod": 1, "n": 0})
add("von_mises_known_concentration", "VonMisesKnownConcentration", {"cos_total": [3, -0.5, 1, -2.25, 7, 0.25], "sin_total": [1, 0.75, -2, -5, 0.5, 4], "n": N, "kappa": KNOWN},
    {"cos_total": 0, "sin_total": 0, "n": 0, "kappa": 2})
add("von_mises_known_direction", "VonMisesKnownDirectionProportional", {"centered_cos_total": [3, -0.5, 1, -2.25, 7, 0.25], "n": [10, 12, 15, 40, 9, 30]}, {"centered_cos_total": 0, "n": 0})

add("binomial_beta_predictive", "Beta", {"n": COUNT}, {"n": 0}, "distribution")
add("bernoulli_beta_predictive", "Beta", target="distribution")
add("negative_binomial_beta_predictive", "Beta", {"r": [1, 3, 2, 5, 4, 30]}, None, "distribution")
add("poisson_gamma_predictive", "Gamma", target="distribution")
CALLS["poisson_gamma_predictive[Gamma]default"] = CALLS.pop("poisson_gamma_predictive[Gamma]")
add("poisson_gamma_predictive", "Gamma", {"n": [1, 2, 5, 0.5, 3, 40]}, None, "distribution")
add("exponential_gamma_predictive", "Gamma", target="distribution")
add("gamma_known_shape_predictive", "Gamma", {"alpha": KNOWN}, None, "distribution")
add("normal_known_variance_predictive", "Normal", {"var": KNOWN}, None, "distribution")
add("normal_known_precision_predictive", "Normal", {"precision": KNOWN}, None, "distribution")
add("normal_known_mean_predictive", "InverseGamma ScaledInverseChiSquared", {"mu": XR}, None, "distribution")
add("normal_predictive", "NormalInverseGamma NormalGamma", target="distribution")
add("normal_normal_inverse_gamma_predictive", "NormalInverseGamma", target="distribution")
