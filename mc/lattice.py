"""Exploration of posterior machines: all multisets of observations up to a bound, and wide argument sweeps."""

import itertools
import math
from fractions import Fraction

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import ref
from mc.ref import F
from mc.spec import specs

# -- lattice of data sets ----------------------------------------------------------------------


def multisets(atoms, depth):
    for k in range(depth + 1):
        yield from itertools.combinations_with_replacement(range(len(atoms)), k)


def chunks(seq, n):
    seq = list(seq)
    return [seq[i : i + n] for i in range(0, len(seq), n)]


def lattice_units(names, depth, per=6):
    out = []
    for nm in names:
        s = specs[nm]
        combos = [(i, j) for i in range(len(s.priors)) for j in range(len(s.knowns))]
        for c in chunks(combos, per):
            out.append({"kind": "lattice", "model": nm, "combos": c, "depth": depth})
    return out


def flt(fields):
    out = {}
    for k, v in fields.items():
        a = np.asarray(v, float)
        out[k] = float(a) if a.ndim == 0 or a.size == 1 and a.ndim < 1 else a
    return out


def show(obs):
    return [list(o) if isinstance(o, tuple) else o for o in obs]


def run_lattice(u, ctx, lib=False):
    s = specs[u["model"]]
    depth = min(u["depth"], 1) if getattr(s, "single", False) else u["depth"]
    for pi, ki in u["combos"]:
        pf, kn = s.priors[pi], s.knowns[ki]
        prior = s.prior(pf)
        for ms in multisets(s.atoms, depth):
            if len(ms) < s.min_batch:
                continue
            obs = [s.atoms[i] for i in ms]
            ctx.state((s.name, pi, ki, ms))
            ctx.step()
            ctx.eval(1, key=(s.name, pi, ki, ms))
            key = s.name
            info = dict(model=s.name, prior=pf, known=kn, data=show(obs))
            with ctx.guard(key, f"{s.fn} on valid data", **info):
                post = s.update(prior, obs, kn)
                bad = s.compare(post, s.expected(pf, obs, kn), pf, obs, kn)
                if bad:
                    ctx.fail(f"{key}:hyperparameters", f"{s.fn}: {bad}", **info)
                    continue
                if lib:
                    check_lib_bayes(s, prior, post, pf, obs, kn, ctx, info)
                else:
                    check_bayes(s, post, pf, obs, kn, ctx, info)
                ctx.trace()
        ctx.sample(model=s.name, prior=pf, known=kn, last_data=show(obs))


def spread_ok(vals, mags):
    fin = [v for v in vals if v is not None]
    if not fin:
        return True
    return max(fin) - min(fin) <= 1e-9 * (1 + max(mags))


def check_bayes(s, post, pf, obs, kn, ctx, info):
    fp, f0 = flt(s_fields(post)), flt(pf)
    vals, mags = [], [0.0]
    for t in s.thetas:
        a, b = s.logfam(t, fp), s.logfam(t, f0)
        l = [s.loglik(t, o, kn) for o in obs]
        rhs = b + math.fsum(l) if all(x > ref.NINF for x in l) and b > ref.NINF else ref.NINF
        if (a == ref.NINF) != (rhs == ref.NINF):
            ctx.fail(f"{s.name}:support", f"{s.fn}: support of the posterior differs from prior x likelihood at {t}", **info)
            return
        if a > ref.NINF:
            vals.append(a - rhs)
            mags += [abs(a), abs(rhs), *[abs(x) for x in l]]
    if not spread_ok(vals, mags):
        ctx.fail(f"{s.name}:bayes", f"{s.fn}: log posterior - log prior - log likelihood is not constant: {vals}", **info)


def s_fields(obj):
    from mc.spec import fields_of

    return {k: v for k, v in fields_of(obj).items() if v is not None}


def check_lib_bayes(s, prior, post, pf, obs, kn, ctx, info):
    """the same, evaluated through the log-likelihood method of the library"""
    vals, mags = [], [0.0]
    for t in s.thetas:
        a, b = float(s.lib(post, t, kn)), float(s.lib(prior, t, kn))
        l = [s.loglik(t, o, kn) for o in obs]
        rhs = b + math.fsum(l)
        vals.append(a - rhs)
        mags += [abs(a), abs(b), *[abs(x) for x in l]]
    if not (all(math.isfinite(v) for v in vals) and spread_ok(vals, mags)):
        ctx.fail(f"{s.name}:bayes", f"{s.fn}: log posterior - log prior - log likelihood is not constant: {vals}", **info)


# -- wide sweeps over the arguments --------------------------------------------------------------

COUNTS = sorted(
    {*range(0, 22), 24, 25, 29, 30, 31, 32, 33, 40, 49, 50, 51, 60, 63, 64, 65, 75, 99, 100, 101, 127, 128, 129, 199, 200,
     250, 255, 256, 257, 365, 499, 500, 501, 511, 512, 513, 750, 999, 1000, 1001, 1023, 1024, 1025, 2000, 4095, 4096, 5000, 9999, 10000, 10001,
     32767, 32768, 50000, 65535, 65536, 99999, 100000, 100001, 10**6, 10**6 + 1, 10**7, 2**31 - 1, 2**31, 2**31 + 1, 10**10, 10**12}
)
FEWCOUNTS = [0, 1, 2, 3, 7, 10, 31, 64, 100, 257, 1000, 9999, 10001, 65536, 10**6, 2**31, 10**12]
POSREAL = [1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.25, 0.5, 0.75, 0.999, 1, 1.0, 1.001, 1.5, 2, 2.5, 3, 4, 5, 7.5, 9.99, 10, 12, 25, 50, 99.5, 100,
           101, 250, 999, 1000, 1001, 5e3, 1e4, 5e4, 1e5, 1e6, 1e7, 1e9]
FEWPOS = [1e-6, 0.01, 0.25, 0.5, 1, 1.0, 2, 3.5, 10, 99, 1000, 1e5, 1e8]
REAL = [-1e9, -1e6, -1e4, -1001, -100, -10, -3.5, -1, -0.5, -1e-3, 0, 0.0, 1e-3, 0.5, 1, 2, 3.5, 10, 100, 1001, 1e4, 1e6, 1e9]
FEWREAL = [-1e6, -100.5, -1, -0.25, 1e-5, 0.7, 0, 0.0, 0.25, 1, 3.5, 100, 1e6]
SHAPES = [0, 0.0, 1e-6, 0.001, 0.1, 0.3, 0.5, 1, 1.0, 1.5, 2, 3, 5, 10, 30.5, 100, 1000, 1e6]
FEWSHAPES = [1e-6, 0.01, 0.3, 0.5, 1, 2, 10.5, 1000, 1e6]


def half(n):
    return F(n) / 2


def nkv(p, a):
    t0, tv = 1 / F(p["sigma"]) ** 2, F(a["n"]) / F(a["var"])
    t = t0 + tv
    return {"mu": (F(p["mu"]) * t0 + F(a["x_total"]) / F(a["var"])) / t, "sigma2": 1 / t}


def nkv_mag(p, a):
    var = float(a["var"]) if "var" in a else 1 / float(a["precision"])
    t0, tv = float(p["sigma"]) ** -2, a["n"] / var
    return {"mu": (abs(float(p["mu"])) * t0 + abs(float(a["x_total"])) / var) / (t0 + tv)}


def nig(lam, pre=""):
    def f(p, a):
        x, x2, n = F(a[pre + "x_total"]), F(a[pre + "x2_total"]), F(a["n"])
        lp = F(p[lam]) + n
        mu = (F(p[lam]) * F(p["mu"]) + x) / lp
        return {
            "mu": mu, lam: lp, "alpha": F(p["alpha"]) + n / 2,
            "beta": F(p["beta"]) + (x2 + F(p[lam]) * F(p["mu"]) ** 2 - lp * mu**2) / 2,
        }

    return f


def nig_mag(lam, pre=""):
    def g(p, a):
        m = abs(float(a[pre + "x2_total"])) + float(p[lam]) * float(p["mu"]) ** 2
        m += float(a[pre + "x_total"]) ** 2 / (float(p[lam]) + a["n"])
        return {"beta": m, "mu": (float(p[lam]) * abs(float(p["mu"])) + abs(float(a[pre + "x_total"]))) / (float(p[lam]) + a["n"])}

    return g


def beta_counts(p, x, y):
    return {"alpha": F(p["alpha"]) + x, "beta": F(p["beta"]) + y}


def norm_canon(obj):
    return {"mu": obj.mu, "sigma2": float(obj.sigma) ** 2 if float(obj.sigma) >= 0 else math.nan}


class Direct:
    def __init__(self, fn, cls, prior, args, f, ok=lambda a: True, mag=None, canon=None, small=None):
        self.fn, self.cls, self.prior, self.args, self.f, self.ok = fn, cls, prior, args, f, ok
        # cancellation is judged against the size of the summed terms
        self.mag = mag or (lambda p, a: dict.fromkeys(("alpha", "beta", "c", "r"), max(abs(float(v)) for v in a.values())))
        self.canon = canon or (lambda o: {k: v for k, v in s_fields(o).items()})
        self.small = small  # small values per argument for the sweep over representations


BETA_P = {"alpha": SHAPES, "beta": SHAPES}
GAM_P = {"alpha": SHAPES, "beta": SHAPES}
SB = {"alpha": [1, 3], "beta": [2]}
direct = {}


def d(name, *a, **k):
    direct[name] = Direct(*a, **k)


d("binomial_beta", "binomial_beta", D.Beta, BETA_P, {"n": COUNTS, "x": COUNTS}, lambda p, a: beta_counts(p, F(a["x"]), F(a["n"]) - F(a["x"])),
  ok=lambda a: a["x"] <= a["n"], small={**SB, "n": [4], "x": [0, 1, 4]})
d("bernoulli_beta", "bernoulli_beta", D.Beta, BETA_P, {"x": [0, 1]}, lambda p, a: beta_counts(p, F(a["x"]), 1 - F(a["x"])),
  small={**SB, "x": [0, 1]})
d("negative_binomial_beta", "negative_binomial_beta", D.Beta, BETA_P, {"r": FEWCOUNTS[1:] + [0.3, 2.5], "n": FEWCOUNTS, "x": COUNTS},
  lambda p, a: beta_counts(p, F(a["r"]) * F(a["n"]), F(a["x"])), small={**SB, "r": [3], "n": [2], "x": [0, 5]})
for one in (True, False, None, np.True_, np.False_, 1, 0):
    d(f"geometric_beta[{one!r}]", "geometric_beta", D.Beta, BETA_P,
      {"x_total": COUNTS, "n": COUNTS, **({} if one is None else {"one_start": [one]})},
      (lambda p, a: beta_counts(p, F(a["n"]), F(a["x_total"]) - (F(a["n"]) if a.get("one_start", True) else 0))),
      ok=lambda a: a["n"] <= a["x_total"] if a.get("one_start", True) else a["n"] > 0 or a["x_total"] == 0,
      small={**SB, "x_total": [5], "n": [0, 2], **({} if one is None else {"one_start": [one]})})
d("poisson_gamma", "poisson_gamma", D.Gamma, GAM_P, {"x_total": COUNTS, "n": COUNTS + [0.25, 2.5]}, lambda p, a: beta_counts(p, F(a["x_total"]), F(a["n"])),
  ok=lambda a: a["n"] > 0 or a["x_total"] == 0, small={**SB, "x_total": [0, 5], "n": [1, 2]})
d("exponential_gamma", "exponential_gamma", D.Gamma, GAM_P, {"x_total": POSREAL + [0], "n": COUNTS}, lambda p, a: beta_counts(p, F(a["n"]), F(a["x_total"])),
  ok=lambda a: a["n"] > 0 or a["x_total"] == 0, small={**SB, "x_total": [5], "n": [1, 2]})
d("gamma_known_shape", "gamma_known_shape", D.Gamma, GAM_P, {"x_total": POSREAL + [0], "n": FEWCOUNTS, "alpha": SHAPES},
  lambda p, a: beta_counts(p, F(a["n"]) * F(a["alpha"]), F(a["x_total"])), ok=lambda a: a["n"] > 0 or a["x_total"] == 0,
  small={**SB, "x_total": [5], "n": [1, 2], "_alpha": [3]})
d("inverse_gamma_known_rate", "inverse_gamma_known_rate", D.Gamma, GAM_P, {"reciprocal_x_total": POSREAL + [0], "n": FEWCOUNTS, "alpha": SHAPES},
  lambda p, a: beta_counts(p, F(a["n"]) * F(a["alpha"]), F(a["reciprocal_x_total"])), ok=lambda a: (a["n"] > 0) == (a["reciprocal_x_total"] > 0),
  small={**SB, "reciprocal_x_total": [5], "n": [1, 2], "_alpha": [3]})
NP = {"mu": FEWREAL, "sigma": FEWPOS}
SN = {"mu": [0, 3], "sigma": [2]}
d("normal_known_variance", "normal_known_variance", D.Normal, NP, {"x_total": REAL, "n": FEWCOUNTS, "var": FEWPOS}, nkv,
  ok=lambda a: a["n"] > 0 or a["x_total"] == 0, mag=nkv_mag, canon=norm_canon, small={**SN, "x_total": [5], "n": [1, 2], "var": [4]})
d("normal_known_precision", "normal_known_precision", D.Normal, NP, {"x_total": REAL, "n": FEWCOUNTS, "precision": FEWPOS},
  lambda p, a: nkv(p, {**a, "var": 1 / F(a["precision"])}), ok=lambda a: a["n"] > 0 or a["x_total"] == 0, mag=nkv_mag, canon=norm_canon,
  small={**SN, "x_total": [5], "n": [1, 2], "precision": [4]})


def _km_b(p, a):
    return (F(a["x2_total"]) - 2 * F(a["mu"]) * F(a["x_total"]) + F(a["n"]) * F(a["mu"]) ** 2) / 2


def _km_ok(a):
    if a["n"] == 0:
        return a["x_total"] == 0 and a["x2_total"] == 0
    return F(a["x2_total"]) * F(a["n"]) >= F(a["x_total"]) ** 2


def _km_mag(p, a):
    m = abs(float(a["x2_total"])) + a["n"] * float(a["mu"]) ** 2 + abs(float(a["mu"]) * float(a["x_total"])) * 2
    return {"beta": m, "sigma2": m / (float(p["nu"]) + a["n"]) if "nu" in p else m}


X2 = [0, 1e-5, 0.25, 1, 1.3, 4, 25.5, 1e3, 1e5, 1e8, 1e13]
d("normal_known_mean[IG]", "normal_known_mean", D.InverseGamma, {"alpha": FEWSHAPES, "beta": FEWSHAPES},
  {"x_total": FEWREAL, "x2_total": X2, "n": FEWCOUNTS, "mu": FEWREAL},
  lambda p, a: {"alpha": F(p["alpha"]) + half(a["n"]), "beta": F(p["beta"]) + _km_b(p, a)}, ok=_km_ok, mag=_km_mag,
  small={**SB, "x_total": [5], "x2_total": [13], "n": [2], "mu": [3]})
d("normal_known_mean[SICS]", "normal_known_mean", D.ScaledInverseChiSquared, {"nu": FEWSHAPES, "sigma2": FEWSHAPES},
  {"x_total": FEWREAL, "x2_total": X2, "n": FEWCOUNTS, "mu": FEWREAL},
  lambda p, a: {"nu": F(p["nu"]) + F(a["n"]), "sigma2": (F(p["nu"]) * F(p["sigma2"]) + 2 * _km_b(p, a)) / (F(p["nu"]) + F(a["n"]))},
  ok=_km_ok, mag=_km_mag, small={"nu": [1, 3], "sigma2": [2], "x_total": [5], "x2_total": [13], "n": [2], "mu": [3]})
for fn, pre in (("normal", ""), ("normal_normal_inverse_gamma", ""), ("log_normal", "ln_")):
    for cls, lam in ((D.NormalInverseGamma, "nu"), (D.NormalGamma, "lam")):
        if fn == "normal_normal_inverse_gamma" and lam == "lam":
            continue
        d(f"{fn}[{cls.__name__}]", fn, cls, {"mu": [-100.5, -1, 0, 0.3, 1, 3.5, 500, 1e5], lam: FEWSHAPES, "alpha": [1e-3, 0.5, 0.7, 1, 30, 400, 1e5], "beta": FEWSHAPES},
          {f"{pre}x_total": FEWREAL, f"{pre}x2_total": X2, "n": FEWCOUNTS}, nig(lam, pre), mag=nig_mag(lam, pre),
          ok=(lambda pre: lambda a: _km_ok({"n": a["n"], "x_total": a[pre + "x_total"], "x2_total": a[pre + "x2_total"]}))(pre),
          small={"mu": [3], lam: [1, 2], "alpha": [1], "beta": [2], f"{pre}x_total": [5], f"{pre}x2_total": [13], "n": [2]})
d("uniform_pareto", "uniform_pareto", D.Pareto, {"x_m": POSREAL, "alpha": FEWSHAPES}, {"x_max": POSREAL + [0], "n": FEWCOUNTS},
  lambda p, a: {"x_m": max(F(p["x_m"]), F(a["x_max"])), "alpha": F(p["alpha"]) + F(a["n"])}, ok=lambda a: a["n"] > 0 or a["x_max"] == 0,
  small={"x_m": [1, 4], "alpha": [2], "x_max": [3], "n": [1, 2]})


def _pg(p, a):
    return {"alpha": F(p["alpha"]) + F(a["n"]), "beta": F(p["beta"]) + F(a["ln_x_total"]) - F(a["n"]) * F(math.log(a["x_m"]))}


d("pareto_gamma", "pareto_gamma", D.Gamma, {"alpha": FEWSHAPES, "beta": FEWSHAPES},
  {"n": FEWCOUNTS, "ln_x_total": REAL, "x_m": FEWPOS}, _pg,
  ok=lambda a: a["ln_x_total"] == 0 if a["n"] == 0 else a["ln_x_total"] >= a["n"] * math.log(a["x_m"]),
  mag=lambda p, a: {"beta": abs(a["ln_x_total"]) + a["n"] * abs(math.log(a["x_m"]))},
  small={**SB, "n": [1, 2], "ln_x_total": [5], "x_m": [2]})
d("weibull_inverse_gamma_known_shape", "weibull_inverse_gamma_known_shape", D.InverseGamma, GAM_P, {"n": COUNTS, "x_beta_total": POSREAL + [0]},
  lambda p, a: beta_counts(p, F(a["n"]), F(a["x_beta_total"])), ok=lambda a: a["n"] > 0 or a["x_beta_total"] == 0,
  small={**SB, "n": [1, 2], "x_beta_total": [5]})
d("gamma", "gamma", D.GammaProportional, {"p": FEWPOS, "q": FEWSHAPES, "r": [1, 2.5], "s": [1, 30]}, {"x_total": FEWPOS + [0], "x_prod": FEWPOS, "n": FEWCOUNTS},
  lambda p, a: {"p": F(p["p"]) * F(a["x_prod"]), "q": F(p["q"]) + F(a["x_total"]), "r": F(p["r"]) + F(a["n"]), "s": F(p["s"]) + F(a["n"])},
  small={"p": [2], "q": [1], "r": [1, 2], "s": [1], "x_total": [3], "x_prod": [2], "n": [2]})
d("gamma_known_rate", "gamma_known_rate", D.GammaKnownRateProportional, {"a": FEWPOS, "b": FEWSHAPES, "c": [1, 2.5]},
  {"x_prod": FEWPOS, "n": FEWCOUNTS, "beta": FEWPOS},
  lambda p, a: {"a": F(p["a"]) * F(a["x_prod"]), "b": F(p["b"]) + F(a["n"]), "c": F(p["c"]) + F(a["n"])},
  small={"a": [2], "b": [1, 2], "c": [1], "x_prod": [2], "n": [2], "_beta": [3]})
d("beta", "beta", D.BetaProportional, {"p": [1e-9, 0.3, 1], "q": [1e-9, 0.25, 1], "k": FEWSHAPES}, {"x_prod": [1e-300, 1e-12, 0.25, 1], "one_minus_x_prod": [1e-12, 0.5, 1], "n": COUNTS},
  lambda p, a: {"p": F(p["p"]) * F(a["x_prod"]), "q": F(p["q"]) * F(a["one_minus_x_prod"]), "k": F(p["k"]) + F(a["n"])},
  small={"p": [1], "q": [1], "k": [1, 2], "x_prod": [0.5], "one_minus_x_prod": [0.25], "n": [2]})
d("von_mises_known_direction", "von_mises_known_direction", D.VonMisesKnownDirectionProportional, {"c": SHAPES, "r": FEWREAL}, {"centered_cos_total": REAL, "n": COUNTS},
  lambda p, a: {"c": F(p["c"]) + F(a["n"]), "r": F(p["r"]) + F(a["centered_cos_total"])},
  ok=lambda a: abs(a["centered_cos_total"]) <= a["n"], small={"c": [1, 2], "r": [2], "centered_cos_total": [1], "n": [2]})


def _vm_canon(o):
    a, b = float(o.a), float(o.b)
    ok = a >= 0 and -1e-9 <= b <= 2 * math.pi + 1e-9  # the direction is reported in one turn
    return {"C": a * math.cos(b) if ok else math.nan, "S": a * math.sin(b) if ok else math.nan}


def _vm_big(p, a):
    return abs(float(p["a"])) + float(a["kappa"]) * (abs(a["cos_total"]) + abs(a["sin_total"]))


d("von_mises_known_concentration", "von_mises_known_concentration", D.VonMisesKnownConcentration,
  {"a": [1e-12, 1e-6, *SHAPES], "b": [0, 0.0, 1e-6, 0.3, 1, 1.5, 2, 3, 3.141, 4, 5, 6, 6.283]},
  {"cos_total": FEWREAL, "sin_total": FEWREAL, "n": [0, 1, 2, 7, 100, 1001, 10**7], "kappa": [0, *FEWPOS]},
  lambda p, a: {"C": float(p["a"]) * math.cos(p["b"]) + float(a["kappa"]) * float(a["cos_total"]),
                "S": float(p["a"]) * math.sin(p["b"]) + float(a["kappa"]) * float(a["sin_total"])},
  ok=lambda a: a["cos_total"] ** 2 + a["sin_total"] ** 2 <= a["n"] ** 2, canon=_vm_canon,
  mag=lambda p, a: dict.fromkeys(("C", "S"), _vm_big(p, a) * 4), small={"a": [1, 2], "b": [0, 3], "cos_total": [1], "sin_total": [1, 0], "n": [2], "kappa": [3]})
SWEEP_DISCRETE = ["binomial_beta", "bernoulli_beta", "negative_binomial_beta", "geometric_beta[True]", "geometric_beta[False]", "geometric_beta[None]", "poisson_gamma"]
SWEEP_PROP = ["gamma", "gamma_known_rate", "beta", "von_mises_known_direction", "von_mises_known_concentration"]
SWEEP_CONT = [n for n in direct if n not in SWEEP_DISCRETE and n not in SWEEP_PROP]


def sweep_units(names, tier):
    """the argument grid of a model is split over its prior grid"""
    out = []
    for nm in names:
        dd = direct[nm]
        pri = list(itertools.product(*dd.prior.values()))
        arg = len([1 for _ in valid_args(dd)])
        budget = 250_000 if tier == "quick" else 4_000_000
        keep = max(4, budget // max(arg, 1))
        # simplest coverage first: every value of every prior field appears at least once (diagonal), then the rest
        chosen = covering(dd.prior, keep) if len(pri) > keep else pri
        for c in chunks(chosen, max(1, 20_000 // max(arg, 1))):
            out.append({"kind": "sweep", "model": nm, "priors": [list(x) for x in c]})
        out.append({"kind": "types", "model": nm})
    return out


def covering(fields, keep):
    """a fixed covering selection of the product: cyclic diagonals, each of which shows every value of every field"""
    names = list(fields)
    longest = max(len(v) for v in fields.values())
    total = math.prod(len(v) for v in fields.values())
    out, seen, shift = [], set(), 0
    while len(out) < min(keep, total) and shift < 4 * longest:
        for i in range(longest):
            c = tuple((i * (j + 1) + shift * j) % len(fields[n]) if j else i % len(fields[n]) for j, n in enumerate(names))
            if c not in seen:
                seen.add(c)
                out.append(tuple(fields[n][k] for n, k in zip(names, c)))
        shift += 1
    return out


def valid_args(dd):
    for vals in itertools.product(*dd.args.values()):
        a = dict(zip(dd.args, vals))
        if dd.ok(a):
            yield a


def compare_direct(dd, got, exp, mag, rtol):
    if type(got) is not dd.cls:
        return f"returned {type(got).__name__} instead of {dd.cls.__name__}"
    g = {k: v for k, v in dd.canon(got).items() if v is not None}
    if set(g) != set(exp):
        return f"fields {sorted(g)} instead of {sorted(exp)}"
    for k, e in exp.items():
        v = np.asarray(g[k], float)
        if v.size != 1:
            return f"{k} has shape {v.shape}"
        if not ref.close(v.reshape(()), float(e), rtol, atol=1e-300 + 4e-15 * mag.get(k, 0.0) * (rtol / 1e-9)):
            return f"{k} = {g[k]!r} instead of {float(e)!r}"
    return None


def run_sweep(u, ctx):
    dd = direct[u["model"]]
    fn = getattr(M, dd.fn)
    for vals in u["priors"]:
        pf = dict(zip(dd.prior, vals))
        prior = dd.cls(**pf)
        for a in valid_args(dd):
            ctx.step()
            ctx.state((u["model"], tuple(vals), tuple(a.values())))
            try:
                got = fn(prior=prior, **a)
                bad = compare_direct(dd, got, dd.f(pf, a), dd.mag(pf, a), 1e-9)
            except Exception as e:
                bad = f"raised {type(e).__name__}: {e}"
            if bad:
                ctx.fail(f"{u['model']}:sweep", f"{dd.fn}: {bad}", prior=pf, args=a)
                break
            ctx.trace()
        ctx.sample(model=u["model"], prior=pf, args=a)


REPS = {
    "int": int,
    "float": float,
    "int64": np.int64,
    "int32": np.int32,
    "int16": np.int16,
    "uint8": np.uint8,
    "uint64": np.uint64,
    "float64": np.float64,
    "float32": np.float32,
    "0-d array": np.array,
    "Fraction": lambda v: Fraction(v),
    "bool": bool,
    "1-element array": lambda v: np.array([v]),
}


def run_types(u, ctx):
    """every assignment of a representation to two of the arguments (the others plain), and the same one everywhere"""
    dd = direct[u["model"]]
    small = dict(dd.small)
    fn = getattr(M, dd.fn)
    pnames = list(dd.prior)
    # an argument named like a prior field is given as _name
    anames = list(dd.args)
    src = lambda n: small.get("_" + n, small.get(n))
    slots = [("prior", n, small[n]) for n in pnames] + [("arg", n, src(n)) for n in anames]
    slots = [s for s in slots if s[1] != "one_start"]
    fixed = {n: src(n)[0] for n in anames if n == "one_start"}
    # narrow and unsigned integers only where the formula has no product or difference that leaves their range
    reps = [r for r in REPS if u["model"] in SWEEP_DISCRETE or r not in ("int16", "uint8", "uint64", "bool")]
    assigns = [dict.fromkeys(range(len(slots)), r) for r in reps]
    for i, j in itertools.combinations(range(len(slots)), 2):
        for r1, r2 in itertools.product(reps, reps):
            assigns.append({i: r1, j: r2})
    values = list(itertools.product(*[s[2] for s in slots]))
    for asg in assigns:
        for vals in values:
            pf, a = {}, dict(fixed)
            epf, ea = {}, dict(fixed)
            ok, rtol = True, 1e-9
            for i, ((where, n, _), v) in enumerate(zip(slots, vals)):
                r = asg.get(i)
                if r is not None:
                    if r in ("int", "int64", "int32", "int16", "uint8", "uint64", "bool") and float(v) != int(v):
                        ok = False
                    if r == "Fraction" and (n == "x_m" and dd.fn == "pareto_gamma" or dd.fn == "von_mises_known_concentration"):
                        ok = False  # its logarithm or sine is taken, which needs the ln or sin argument
                    if r == "bool" and v not in (0, 1):
                        ok = False
                    if r == "float32":
                        rtol = 1e-5
                if not ok:
                    break
                x = REPS[r](v) if r else v
                (pf if where == "prior" else a)[n] = x
                (epf if where == "prior" else ea)[n] = v
            if not ok or not dd.ok(ea):
                continue
            ctx.step()
            ctx.state((u["model"], tuple(sorted(asg.items())), vals))
            try:
                got = fn(prior=dd.cls(**pf), **a)
                bad = compare_direct(dd, got, dd.f(epf, ea), dd.mag(epf, ea), rtol)
            except Exception as e:
                bad = f"raised {type(e).__name__}: {e}"
            if bad:
                ctx.fail(f"{u['model']}:types", f"{dd.fn}: {bad}", prior=pf, args=a)
                break
            ctx.trace()
    ctx.sample(model=u["model"], representations=list(asg.values()), values=list(vals))
