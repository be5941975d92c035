"""C24 Inference commutes with changes of units, origin, coordinates and labels.

The state of the machine is the situation (prior, known parameters and observations so far) written in one frame, and
the real posterior. A transition either absorbs a batch, expressed in the present frame, through the real model, or
changes the frame: everything that the user would rewrite is rewritten, among it the real posterior, which goes on as
the prior. After every word the posterior must be the one that the untransformed history gives, rewritten in the last
frame, and so must its predictive distribution.
"""

import itertools
import math
import warnings

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import predspec, ref

ID = "C24"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of every word of updates and changes of frame up to a depth on the real models; commuting-diagram check of posterior and predictive in every distinct end state"
RULE = (
    "distinct (model, prior, known parameters, word of batches and changes of frame) after which the real posterior, and the law of its predictive, were "
    "those of the history without changes of frame rewritten in the last frame"
)
ASSUMPTIONS = [
    "changes of frame per model: scaling by 2, 1000 and 1e-6 (also 1e8), shifts, reflections, powers, rotations, linear maps, swaps and permutations of labels, merging categories",
    "agreement up to rounding: relative 1e-9, plus 1e-12 of the largest term that enters a difference of squares in any frame of the word",
    "the hypergeometric model is left out: its known finding breaks the symmetry of its outcomes",
]
BOUNDS = {
    "quick": "51 systems; words of 3 letters out of 3 to 4 batches (the empty one and one of three observations included) and 1 to 8 changes of frame; 4 to 12 priors, 1 to 3 known values each",
    "thorough": "words of 4 letters",
}


class Frame:
    """one change of frame: x on an observation, k on the known values, p on hyperparameters, and on predictive outcomes with its log jacobian"""

    def __init__(self, name, x=None, k=None, p=None, y=None, jac=0.0, scale=1.0, linear=None):
        self.name = name
        ident = lambda v: v
        self.x, self.k, self.p = x or ident, k or ident, p or ident
        self.y = y or self.x
        self.jac, self.scale, self.linear = jac, scale, linear


class Shift:
    """a change of the origin by so many of the present units (a shift by many units loses digits without any fault of the code)"""

    def __init__(self, make):
        self.make, self.name = make, make(1.0).name + " present units"


def present(f, scale):
    return f.make(scale) if isinstance(f, Shift) else f


class Sys:
    """update(prior_obj, obs, known); make(h) the prior; canon(obj) its hyperparameters; law(obj, known) -> log density; noise(h, obs) -> size of the squares"""

    def __init__(self, name, priors, knowns, atoms, make, canon, update, frames, law=None, outcomes=(), noise=None, empty=True, batches=None, rtol=1e-9, gauge=None, twin=None):
        self.name, self.priors, self.knowns, self.atoms = name, priors, knowns, atoms
        self.make, self.canon, self.update, self.frames, self.law, self.outcomes = make, canon, update, frames, law, outcomes
        self.noise, self.rtol, self.gauge = noise, rtol, gauge
        self.batches = batches if batches is not None else ([[]] if empty else []) + [[atoms[1]], [atoms[-1]], [atoms[0], atoms[2 % len(atoms)], atoms[1]]]


SYS = {}


def add(*a, **k):
    s = Sys(*a, **k)
    SYS[s.name] = s


def up(h, **kw):
    return {**h, **kw}


def fields(*names):
    return lambda o: {n: getattr(o, n) for n in names}


def model(fn, kw):
    return lambda obj, obs, kn: getattr(M, fn)(prior=obj, **kw(obs, kn))


def predict(fn, *known, discrete=False, **const):
    def law(obj, kn):
        d = getattr(M, fn)(distribution=obj, **{k: kn[k] for k in known}, **const).dist
        if discrete:
            return d.logpmf
        return d.logpdf if hasattr(d, "logpdf") else lambda y: np.log(d.pdf(y))

    return law


SCALES = [2.0, 1000.0, 1e-6]
AB = predspec.grid(alpha=[1, 0.5, 7.25], beta=[1, 2, 30.5])
NORM = predspec.grid(mu=[0, -3, 25.5], sigma=[1, 2, 0.125])
NIG = predspec.grid(mu=[0, -3], nu=[1, 6, 0.125], alpha=[1, 0.5, 30], beta=[1, 20])
XR = [-30.0, -1.0, 0.0, 0.3, 2.0, 60.0]
XP = [0.01, 0.3, 1.0, 2.5, 30.0]
POSI = [1, 0.25, 3, 0.1]
REAL = [0, 1, -2.5, 0.1]


def tot(obs, kn=None):
    return {"n": len(obs), "x_total": sum(obs)}


def sq(obs, kn=None):
    return {"n": len(obs), "x_total": sum(obs), "x2_total": sum(o * o for o in obs)}


# -- labels of outcomes --------------------------------------------------------------------------------
SWAP = Frame("swap success and failure", x=lambda o: (o[0], o[0] - o[1]), p=lambda h: {"alpha": h["beta"], "beta": h["alpha"]}, y=lambda y: 6 - y)
add("binomial_beta", AB, [{}], [(1, 1), (3, 1), (10, 10), (1000, 17)], lambda h: D.Beta(**h), fields("alpha", "beta"),
    model("binomial_beta", lambda o, k: {"n": sum(a for a, _ in o), "x": sum(b for _, b in o)}), [SWAP],
    law=predict("binomial_beta_predictive", n=6, discrete=True), outcomes=range(-1, 8))
add("bernoulli_beta", AB, [{}], [0, 1], lambda h: D.Beta(**h), fields("alpha", "beta"), model("bernoulli_beta", lambda o, k: {"x": o[0]}),
    [Frame("swap success and failure", x=lambda o: 1 - o, p=SWAP.p)], law=predict("bernoulli_beta_predictive", discrete=True), outcomes=range(-1, 3), batches=[[0], [1]])


def perm(idx):
    idx = list(idx)
    return lambda v: np.asarray(v)[idx]


def dirichlet_frames(d):
    out = []
    for idx in ([1, 0, *range(2, d)], [*range(1, d), 0], list(range(d))[::-1]):
        out.append(Frame(f"categories {idx}", x=perm(idx), p=(lambda f: lambda h: {"alpha": f(h["alpha"])})(perm(idx))))
    return out


for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
    for d in (2, 3, 5):
        at = [np.eye(d, dtype=int)[i] for i in range(d)]
        if fn.startswith("m"):
            at = [np.array([2, 0, 5, 1, 0])[:d], at[0], np.array([0, 3, 1, 0, 40])[:d], at[-1]]
        for n in (1, 3):
            add(f"{fn}[{d} categories, predictive of {n}]", [{"alpha": np.array(a[:d])} for a in ([1, 1, 1, 1, 1], [0.5, 2.0, 30.0, 1.0, 4.0], [3, 1, 2, 7, 1])], [{}], at,
                lambda h: D.Dirichlet(**h), fields("alpha"), model(fn, (lambda d: lambda o, k: {"x": sum(o) if o else np.zeros(d, int)})(d)), dirichlet_frames(d),
                law=predict(f"{fn}_predictive", n=n, discrete=True), outcomes=[np.array(c) for c in predspec.compositions(n, d)])

# -- units ---------------------------------------------------------------------------------------------
RATE = [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, p=lambda h, c=c: up(h, beta=h["beta"] * c), jac=math.log(c)) for c in SCALES]
add("exponential_gamma", AB, [{}], POSI, lambda h: D.Gamma(**h), fields("alpha", "beta"), model("exponential_gamma", tot), RATE, law=predict("exponential_gamma_predictive"), outcomes=XP + [-1.0])
add("gamma_known_shape", AB, predspec.grid(alpha=[1, 0.5, 12.25]), POSI, lambda h: D.Gamma(**h), fields("alpha", "beta"),
    model("gamma_known_shape", lambda o, k: {**tot(o), "alpha": k["alpha"]}), RATE, law=predict("gamma_known_shape_predictive", "alpha"), outcomes=XP + [-1.0])
add("inverse_gamma_known_rate", AB, predspec.grid(alpha=[1, 0.5, 12.25]), POSI, lambda h: D.Gamma(**h), fields("alpha", "beta"),
    model("inverse_gamma_known_rate", lambda o, k: {"n": len(o), "reciprocal_x_total": sum(1 / x for x in o), "alpha": k["alpha"]}),
    [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, p=lambda h, c=c: up(h, beta=h["beta"] / c)) for c in SCALES])
for m in (1.0, 2.5):
    add(f"poisson_gamma[predictive of {m:g}]", AB, [{"n": m}], [(0, 1), (4, 1), (90, 7.5), (1, 0.125)], lambda h: D.Gamma(**h), fields("alpha", "beta"),
        model("poisson_gamma", lambda o, k: {"x_total": sum(a for a, _ in o), "n": sum(b for _, b in o)}),
        [Frame(f"unit of exposure x{c:g}", x=lambda o, c=c: (o[0], o[1] * c), k=lambda k, c=c: {"n": k["n"] * c}, p=lambda h, c=c: up(h, beta=h["beta"] * c), y=lambda y: y) for c in SCALES],
        law=predict("poisson_gamma_predictive", "n", discrete=True), outcomes=[0, 1, 2, 7, 60, -1])
add("uniform_pareto", predspec.grid(x_m=[1, 0.25, 5], alpha=[1, 0.5, 8]), [{}], [0.125, 0.5, 3, 17.3], lambda h: D.Pareto(**h), fields("x_m", "alpha"),
    model("uniform_pareto", lambda o, k: {"x_max": max(o), "n": len(o)}), [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, p=lambda h, c=c: up(h, x_m=h["x_m"] * c)) for c in SCALES], empty=False)
PARETO = [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, k=lambda k, c=c: {"x_m": k["x_m"] * c}) for c in SCALES]
PARETO += [Frame(f"power {q:g}", x=lambda o, q=q: o**q, k=lambda k, q=q: {"x_m": k["x_m"] ** q}, p=lambda h, q=q: up(h, beta=h["beta"] * q), scale=q) for q in (2.0, 0.5)]
add("pareto_gamma", AB, predspec.grid(x_m=[1, 0.25, 2.9]), [3, 3.5, 10, 1000], lambda h: D.Gamma(**h), fields("alpha", "beta"),
    model("pareto_gamma", lambda o, k: {"n": len(o), "ln_x_total": math.fsum(math.log(x) for x in o), "x_m": k["x_m"]}), PARETO,
    noise=lambda h, o: {"beta": sum(abs(math.log(x)) + 60 for x in o)})
WEIBULL = [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, p=lambda h, c=c: {**h, "beta": h["beta"] * c ** h["_k"]}) for c in SCALES]
WEIBULL += [Frame(f"power {q:g}", x=lambda o, q=q: o**q, k=lambda k, q=q: {"shape": k["shape"] / q}, p=lambda h, q=q: {**h, "_k": h["_k"] / q}) for q in (2.0, 0.5)]
add("weibull_inverse_gamma_known_shape", AB, predspec.grid(shape=[1, 2, 0.5]), POSI, lambda h: D.InverseGamma(alpha=h["alpha"], beta=h["beta"]), fields("alpha", "beta"),
    model("weibull_inverse_gamma_known_shape", lambda o, k: {"n": len(o), "x_beta_total": math.fsum(x ** k["shape"] for x in o)}), WEIBULL, gauge=lambda h, k: {**h, "_k": k["shape"]})


# -- unnormalised families: the log likelihood rewritten in the other frame, up to a constant --------------
def centred(values):
    v = np.array([float(x) for x in values])
    return v - v[0]


THETA = list(itertools.product([0.5, 1.0, 2.5, 7.0], [0.3, 1.0, 4.0]))
add("gamma", predspec.grid(p=[1, 0.5, 8], q=[1, 0.25], r=[1, 3], s=[1, 2.5]), [{}], [0.25, 1, 2, 3], lambda h: D.GammaProportional(**h), fields("p", "q", "r", "s"),
    model("gamma", lambda o, k: {**tot(o), "x_prod": math.prod(o)}),
    [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, p=lambda h, c=c: up(h, p=h["p"] * c ** h["s"], q=h["q"] * c), y=lambda t, c=c: (t[0], t[1] / c)) for c in SCALES],
    law=lambda obj, kn: lambda t: obj.approx_log_likelihood(alpha=t[0], beta=t[1]), outcomes=THETA, rtol=1e-8)
add("gamma_known_rate", predspec.grid(a=[1, 0.5, 8], b=[1, 3], c=[1, 2.5]), [{"beta": 1}, {"beta": 0.25}, {"beta": 5}], [0.25, 1, 2, 3], lambda h: D.GammaKnownRateProportional(**h), fields("a", "b", "c"),
    model("gamma_known_rate", lambda o, k: {"n": len(o), "x_prod": math.prod(o), "beta": k["beta"]}),
    [Frame(f"unit x{c:g}", x=lambda o, c=c: o * c, k=lambda k, c=c: {"beta": k["beta"] / c}, p=lambda h, c=c: up(h, a=h["a"] * c ** h["c"]), y=lambda t: t) for c in SCALES],
    law=lambda obj, kn: lambda t: obj.approx_log_likelihood(alpha=t, beta=kn["beta"]), outcomes=[0.5, 1.0, 2.5, 7.0, 20.0], rtol=1e-8)
add("beta", predspec.grid(p=[1, 0.5, 0.03125], q=[1, 0.25], k=[1, 4, 2.5]), [{}], [0.25, 0.5, 0.875, 0.0625], lambda h: D.BetaProportional(**h), fields("p", "q", "k"),
    model("beta", lambda o, k: {"n": len(o), "x_prod": math.prod(o), "one_minus_x_prod": math.prod(1 - x for x in o)}),
    [Frame("other end of the interval", x=lambda o: 1 - o, p=lambda h: up(h, p=h["q"], q=h["p"]), y=lambda t: (t[1], t[0]))],
    law=lambda obj, kn: lambda t: obj.approx_log_likelihood(alpha=t[0], beta=t[1]), outcomes=THETA)


def polar(o):
    """cartesian form of the angle, which is undetermined for a concentration of zero"""
    return {"C": o.a * math.cos(o.b), "S": o.a * math.sin(o.b), "inside": float(o.a >= 0 and -1e-9 <= o.b <= 2 * math.pi + 1e-9)}


def turn(t):
    def p(h):
        return {"C": h["C"] * math.cos(t) - h["S"] * math.sin(t), "S": h["S"] * math.cos(t) + h["C"] * math.sin(t), "inside": 1.0}

    return p


def vm(h):
    return D.VonMisesKnownConcentration(a=math.hypot(h["C"], h["S"]), b=math.atan2(h["S"], h["C"]) % (2 * math.pi))


TURNS = [Frame(f"turn by {t:g}", x=lambda o, t=t: o + t, p=turn(t), k=lambda k, t=t: up(k, direction=k.get("direction", 0) + t)) for t in (1.0, 2.5, math.pi, -0.5)]
FLIP = Frame("mirror", x=lambda o: -o, p=lambda h: up(h, S=-h["S"]), k=lambda k: up(k, direction=-k.get("direction", 0)))
add("von_mises_known_concentration", [{"C": a * math.cos(b), "S": a * math.sin(b), "inside": 1.0} for a in (1, 0.25, 6) for b in (0, 0.5, 2, 3.5, 5.75)], predspec.grid(kappa=[1, 0.3, 12]),
    [0.0, 1.25, 3.0, 4.5], vm, polar,
    model("von_mises_known_concentration", lambda o, k: {"cos_total": math.fsum(map(math.cos, o)), "sin_total": math.fsum(map(math.sin, o)), "n": len(o), "kappa": k["kappa"]}), [*TURNS, FLIP],
    law=lambda obj, kn: lambda t: obj.log_likelihood(mu=t), outcomes=[-3.0, -1.0, 0.0, 0.8, 2.2, 3.1, 5.5], noise=lambda h, o: {"C": 500.0, "S": 500.0})
add("von_mises_known_direction", predspec.grid(c=[0, 1, 5], r=[0, 0.5, 4]), [{"direction": 0.0}, {"direction": 2.0}], [0.0, 1.25, 3.0, 4.5], lambda h: D.VonMisesKnownDirectionProportional(**h), fields("c", "r"),
    model("von_mises_known_direction", lambda o, k: {"centered_cos_total": math.fsum(math.cos(x - k["direction"]) for x in o), "n": len(o)}),
    [Frame(f.name, x=f.x, k=f.k, y=lambda t: t) for f in (*TURNS, FLIP)],
    law=lambda obj, kn: lambda t: obj.approx_log_likelihood(kappa=t), outcomes=[0.1, 0.5, 1.0, 3.0, 12.0], noise=lambda h, o: {"r": 100.0})


# -- units and origin of real observations ------------------------------------------------------------------
def affine(names, known=None, scales=(2.0, 1e-6, -1.0, 1e8), shifts=(2.5, -40.0)):
    """names: hyperparameter -> power of the unit, 'mu' shifts with the origin"""
    def make(a, b):
        def p(h):
            return {k: (a * v + b if k == "mu" else v * abs(a) ** names.get(k, 0)) for k, v in h.items()}

        def k(kn):
            return {k: (a * v + b if k == "mu" else v * abs(a) ** (known or {})[k]) for k, v in kn.items()}

        return Frame(f"x -> {a:g} x + {b:g}", x=lambda o: a * o + b, p=p, k=k, jac=math.log(abs(a)), scale=abs(a))

    out = [make(a, 0.0) for a in scales]
    for a, b in [(1.0, b) for b in shifts] + [(-3.0, 10.0)]:
        out.append(Shift(lambda unit, a=a, b=b: make(a, b * unit)))
    return out


def squares(*names, lam=None, power=2):
    def noise(h, obs):
        mus = abs(h.get("mu", 0.0))
        big = sum(o * o for o in obs) + mus * mus * (float(h.get(lam, 1)) + len(obs))
        return {n: big if power == 2 else math.sqrt(big) for n in names}

    return noise


def location(h, obs):
    return {"mu": abs(h["mu"]) + sum(abs(o) for o in obs)}


add("normal_known_variance", NORM, predspec.grid(var=[1, 0.25, 9]), REAL, lambda h: D.Normal(**h), fields("mu", "sigma"),
    model("normal_known_variance", lambda o, k: {**tot(o), "var": k["var"]}), affine({"sigma": 1}, {"var": 2}), law=predict("normal_known_variance_predictive", "var"), outcomes=XR, noise=location)
add("normal_known_precision", NORM, predspec.grid(precision=[1, 0.25, 9]), REAL, lambda h: D.Normal(**h), fields("mu", "sigma"),
    model("normal_known_precision", lambda o, k: {**tot(o), "precision": k["precision"]}), affine({"sigma": 1}, {"precision": -2}), law=predict("normal_known_precision_predictive", "precision"), outcomes=XR, noise=location)
MEAN = predspec.grid(mu=[0, 2.5, -7.5])


def spread(h, obs):
    return {n: sum((abs(o) + h["_mu"]) ** 2 for o in obs) for n in ("beta", "sigma2")}


def known_mean(names):
    def wrap(f):
        if isinstance(f, Shift):
            return Shift(lambda unit: wrap(f.make(unit)))
        return Frame(f.name, x=f.x, k=f.k, p=lambda h: {k: v for k, v in f.p({**h, "mu": 0}).items() if k != "mu"}, jac=f.jac, scale=f.scale)

    return [wrap(f) for f in affine(names, {})]


add("normal_known_mean[InverseGamma]", AB, MEAN, REAL, lambda h: D.InverseGamma(**h), fields("alpha", "beta"), model("normal_known_mean", lambda o, k: {**sq(o), "mu": k["mu"]}), known_mean({"beta": 2}),
    law=predict("normal_known_mean_predictive", "mu"), outcomes=XR, noise=spread)
add("normal_known_mean[ScaledInverseChiSquared]", predspec.grid(nu=[1, 0.5, 7.25], sigma2=[1, 2, 30.5]), MEAN, REAL, lambda h: D.ScaledInverseChiSquared(**h), fields("nu", "sigma2"),
    model("normal_known_mean", lambda o, k: {**sq(o), "mu": k["mu"]}), known_mean({"sigma2": 2}), law=predict("normal_known_mean_predictive", "mu"), outcomes=XR, noise=spread)
NG = [{"mu": h["mu"], "lam": h["nu"], "alpha": h["alpha"], "beta": h["beta"]} for h in NIG]
for cls, hs, lam in ((D.NormalInverseGamma, NIG, "nu"), (D.NormalGamma, NG, "lam")):
    for fn in ("normal", "log_normal") + (("normal_normal_inverse_gamma",) if lam == "nu" else ()):
        add(f"{fn}[{cls.__name__}]", hs, [{}], REAL, (lambda cls: lambda h: cls(**h))(cls), fields("mu", lam, "alpha", "beta"),
            model(fn, (lambda o, k: {"n": len(o), "ln_x_total": sum(o), "ln_x2_total": sum(x * x for x in o)}) if fn == "log_normal" else sq), affine({"beta": 2}),
            law=predict(f"{'normal' if fn == 'log_normal' else fn}_predictive"), outcomes=XR,
            noise=(lambda lam: lambda h, o: {**squares("beta", lam=lam)(h, o), **location(h, o)})(lam))

# -- coordinates ----------------------------------------------------------------------------------------
MAPS = {
    1: [[[2.0]], [[-0.5]]],
    2: [[[0, 1.0], [1, 0]], [[1.0, 2.0], [0, 1]], [[0.6, -0.8], [0.8, 0.6]], [[2.0, 0], [0, 0.5]]],
    3: [[[0, 1.0, 0], [0, 0, 1], [1, 0, 0]], [[1.0, 0, 0], [-1, 2, 0], [0.5, 0, 1]], [[-2.0, 0, 0], [0, 0.5, 0], [0, 0, 1.0]]],
}
PDS = {1: [[[1.0]], [[9.0]]], 2: [[[1.0, 0], [0, 1]], [[2, 0.75], [0.75, 0.5]], [[4, -1.0], [-1, 3]]], 3: [[[1.0, 0, 0], [0, 1, 0], [0, 0, 1]], [[2, 0.5, -0.25], [0.5, 1, 0.25], [-0.25, 0.25, 3]]]}
ROWS = {1: [[0.0], [1.0], [-2.5]], 2: [[0.0, 0], [1.0, -2], [2.5, 3]], 3: [[0.0, 0, 0], [1.0, -2, 3], [0.5, 4, -1]]}
MUS = {1: [[0.0], [-2.5]], 2: [[0.0, 0], [1, -3.5]], 3: [[0.0, 0, 0], [1, -2, 0.5]]}


def sym(m):
    return (m + m.T) / 2


def linear(d, cov=(), prec=(), kcov=(), kprec=()):
    def make(A, b, scale=1.0):
        A, b = np.array(A, float), np.array(b, float)
        Ai = np.linalg.inv(A)

        def conv(v, cov=cov, prec=prec):
            return {k: A @ w + b if k == "mu" else sym(A @ w @ A.T) if k in cov else sym(Ai.T @ w @ Ai) if k in prec else w for k, w in v.items()}

        return Frame(f"x -> {A.tolist()} x + {b.tolist()}", x=lambda o: A @ np.asarray(o) + b, p=conv, k=lambda k: conv(k, cov=kcov, prec=kprec), jac=math.log(abs(np.linalg.det(A))), scale=scale)

    make_unit = lambda v: make(np.diag(v), np.zeros(d))
    out = [make(A, np.zeros(d)) for A in MAPS[d]] + [make(c * np.eye(d), np.zeros(d), c) for c in (2.0**-30, 1000.0)]
    for A, b in ((np.eye(d), [2.5, -4.0, 1.0][:d]), (MAPS[d][1], [-1.0, 0.5, 10.0][:d])):
        out.append(Shift(lambda unit, A=A, b=b: make(A, np.array(b) * unit)))
    UNIT[id(out)] = make_unit
    return out


UNIT = {}  # frames of a system -> the frame with a unit of its own for each coordinate


def xbar(o, d):
    return {"n": len(o), "x_bar": np.mean(o, axis=0) if o else np.zeros(d)}


def big(d, *names):
    def noise(h, obs):
        m = sum(float(np.max(np.abs(o))) ** 2 for o in obs) + float(np.max(np.abs(h.get("mu", 0)))) ** 2 * (float(np.max(h.get("kappa", 1))) + len(obs))
        return {n: m for n in names} | {"mu": math.sqrt(m)}

    return noise


for d in (1, 2, 3):
    mn = [{"mu": np.array(m), "cov": np.array(c)} for m in MUS[d] for c in PDS[d]]
    pts = [np.array(r) for r in [*ROWS[d], [7.0, -1.0, 0.25][:d], [-30.0, 2.0, 5.0][:d]]]
    rows = [np.array(r) for r in ROWS[d]]
    add(f"multivariate_normal_known_covariance[{d}]", mn, [{"cov": np.array(c)} for c in PDS[d][:2]], rows, lambda h: D.MultivariateNormal(**h), fields("mu", "cov"),
        (lambda d: model("multivariate_normal_known_covariance", lambda o, k: {**xbar(o, d), "cov": k["cov"]}))(d), linear(d, cov=("cov",), kcov=("cov",)),
        law=predict("multivariate_normal_known_covariance_predictive", "cov"), outcomes=pts, rtol=1e-8, noise=big(d))
    add(f"multivariate_normal_known_precision[{d}]", mn, [{"precision": np.array(c)} for c in PDS[d][:2]], rows, lambda h: D.MultivariateNormal(**h), fields("mu", "cov"),
        (lambda d: model("multivariate_normal_known_precision", lambda o, k: {**xbar(o, d), "precision": k["precision"]}))(d), linear(d, cov=("cov",), kprec=("precision",)),
        law=predict("multivariate_normal_known_precision_predictive", "precision"), outcomes=pts, rtol=1e-8, noise=big(d))
    kmean = linear(d, cov=("psi",))
    add(f"multivariate_normal_known_mean[{d}]", [{"nu": n, "psi": np.array(c)} for n in (d, d + 2.5) for c in PDS[d]], [{"mu": np.array(m)} for m in MUS[d]], rows, lambda h: D.InverseWishart(**h), fields("nu", "psi"),
        (lambda d: model("multivariate_normal_known_mean", lambda o, k: {"X": np.array(o, float).reshape(len(o), d), "mu": k["mu"]}))(d), kmean, rtol=1e-8, noise=big(d, "psi"))
    add(f"multivariate_normal[{d}]", [{"mu": np.array(m), "kappa": k, "nu": n, "psi": np.array(c)} for (m, c) in zip(MUS[d] * 2, PDS[d]) for k, n in ((1, d), (0.25, d + 1.5), (6, 2 * d + 3))], [{}], rows,
        lambda h: D.NormalInverseWishart(**h), fields("mu", "kappa", "nu", "psi"), (lambda d: model("multivariate_normal", lambda o, k: {"X": np.array(o, float).reshape(len(o), d)}))(d), linear(d, cov=("psi",)),
        law=predict("multivariate_normal_predictive"), outcomes=pts, rtol=1e-8, noise=big(d, "psi"))

    # regression: an observation is a row of the design and its outcome; an outcome of the predictive is the outcomes at two fixed rows
    def regression(d=d):
        out = []
        for c in (2.0, -1.0, 1e-6):
            out.append(Frame(f"y -> {c:g} y", x=lambda o, c=c: (o[0], c * o[1]), p=lambda h, c=c: up(h, mu=c * h["mu"], beta=c * c * h["beta"]), y=lambda y, c=c: (y[0], c * y[1]), jac=2 * math.log(abs(c)), scale=abs(c)))
        b0 = np.array([1.0, -2.0, 0.5][:d])

        def shifted(unit, b0=b0):
            b = b0 * unit
            return Frame(f"y -> y + x b, b = {b.tolist()}", x=lambda o: (o[0], o[1] + float(o[0] @ b)), p=lambda h: up(h, mu=h["mu"] + b), y=lambda y: (y[0], y[1] + y[0] @ b))

        out.append(Shift(shifted))

        def make(A):
            A = np.array(A)
            Ai = np.linalg.inv(A)
            return Frame(f"row -> row {A.tolist()}", x=lambda o, A=A: (o[0] @ A, o[1]), p=lambda h, Ai=Ai: up(h, mu=Ai @ h["mu"], delta_inverse=sym(Ai @ h["delta_inverse"] @ Ai.T)), y=lambda y, A=A: (y[0] @ A, y[1]))

        out += [make(A) for A in [*MAPS[d], 1e-3 * np.eye(d)]]
        UNIT[id(out)] = lambda v: make(np.diag(v))
        return out

    def reg_law(obj, kn):
        return lambda y: M.linear_regression_predictive(distribution=obj, X=y[0]).dist.logpdf(y[1])

    X2 = np.array([[1.0, 0.5, -1.0][:d], [0.25, -2.0, 1.0][:d]])
    at = [(r, y) for r, y in zip(rows, (0.5, -1.5, 12.0))]
    add(f"linear_regression[{d}]", [{"mu": np.array(m), "delta_inverse": np.array(c), "alpha": a, "beta": b} for m, c in zip(MUS[d] * 2, PDS[d]) for a, b in ((1, 1), (0.5, 20.25))], [{}], at,
        lambda h: D.NormalInverseGamma(**h), fields("mu", "delta_inverse", "alpha", "beta"),
        (lambda d: model("linear_regression", lambda o, k: {"X": np.array([r for r, _ in o], float).reshape(len(o), d), "y": np.array([v for _, v in o], float)}))(d), regression(),
        law=reg_law, outcomes=[(X2, np.array(v)) for v in ([0.0, 0.0], [1.0, -3.0], [20.0, 5.0])], rtol=1e-8,
        noise=lambda h, o: {"beta": sum(v * v for _, v in o) + 100 * float(np.max(np.abs(h["mu"]))) ** 2, "mu": float(np.max(np.abs(h["mu"]))) + sum(abs(v) for _, v in o)})

POWER = {"beta": 2, "sigma2": 2, "psi": 2, "mu": 1}


UNEVEN = {2: [[1.0, 1e5], [1e-5, 1.0], [1e-3, 1e2]], 3: [[1.0, 1e5, 1.0], [1e-5, 1.0, 1.0], [1e-2, 1.0, 1e3], [1.0, 1e-4, 10.0]]}


def uneven(s, u, ctx):
    """a unit of its own for each coordinate, far apart: every sequence of updates in these units, judged coordinate by coordinate in the old ones"""
    for h0, k0, v in itertools.product(s.priors, s.knowns, u["sizes"]):
        f, g = UNIT[id(s.frames)](v), UNIT[id(s.frames)]([1 / x for x in v])
        words = [w for n in range(1, u["depth"] + 1) for w in itertools.product(range(len(s.batches)), repeat=n)]
        for w in words:
            info = dict(system=s.name, prior=h0, known=k0, units=v, batches=[str(s.batches[i]) for i in w])
            with ctx.guard(f"{s.name}:uneven units", **info):
                a, b = s.make(h0), s.make(f.p(h0))
                for i in w:
                    ctx.step()
                    a, b = s.update(a, s.batches[i], k0), s.update(b, [f.x(o) for o in s.batches[i]], f.k(k0))
                want, got = s.canon(a), g.p(s.canon(b))
                for name in want:
                    top = float(np.max(np.abs(np.asarray(want[name], float))))
                    bad = close(got[name], want[name], 1e-4, 1e-4 * max(1.0, top))
                    if bad:
                        ctx.fail(f"{s.name}:uneven units:{name}", f"{s.name}: {name} is {bad} in units {v} per coordinate after {info['batches']}", **info)
                        break
                else:
                    ctx.state((s.name, str(h0), str(k0), str(v), str(w)))
                    ctx.eval(key=(s.name, str(h0), str(k0), str(v), str(w)))
                    ctx.trace()


def units(tier):
    out = []
    for nm, s in SYS.items():
        n = len(s.batches) + len(s.frames)
        pk = list(itertools.product(range(len(s.priors)), range(len(s.knowns))))
        limit = max(2, int(6000 / n**3 * (0.5 if "[3" in nm else 1))) if tier == "quick" else max(2, int(120000 / n**4))
        if len(pk) > limit:
            stride = len(pk) / limit
            pk = [pk[int(i * stride)] for i in range(limit)]
        size = max(1, int((1500 if tier == "quick" else 15000) / n**3))
        for i in range(0, len(pk), size):
            out.append({"system": nm, "pk": pk[i : i + size], "depth": 3 if tier == "quick" else 4})
        if id(s.frames) in UNIT and "[1" not in nm:
            out.append({"system": nm, "sizes": UNEVEN[int(nm[-2])], "depth": 2 if tier == "quick" else 3})
    return out


def close(g, e, rtol, atol):
    g, e = np.asarray(g, float), np.asarray(e, float)
    if g.shape != e.shape:
        return f"shape {g.shape} instead of {e.shape}"
    top = float(np.max(np.abs(e))) if e.size else 0.0
    if not ref.allclose(g, e, rtol, atol=1e-300 + (1e-10 * top if e.ndim else 0.0) + atol):
        return f"{g.tolist()!r} instead of {e.tolist()!r}"
    return None


def run(u, ctx):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        (uneven if "sizes" in u else explore)(SYS[u["system"]], u, ctx)


def explore(s, u, ctx):
    relative = s.law is not None and s.name in ("gamma", "gamma_known_rate", "beta", "von_mises_known_concentration", "von_mises_known_direction")
    letters = [("batch", i) for i in range(len(s.batches))] + [("frame", i) for i in range(len(s.frames))]
    for ip, ik in u["pk"]:
        h0, k0 = s.priors[ip], s.knowns[ik]
        gauge = s.gauge or (lambda h, k: h)
        plain = {}  # observations absorbed -> the posterior without changes of frame

        def straight(word):
            key = tuple(i for kind, i in word if kind == "batch")
            if key not in plain:
                obj = s.make(h0)
                for i in key:
                    obj = s.update(obj, s.batches[i], k0)
                plain[key] = (obj, s.canon(obj), [s.law(obj, k0)(y) for y in s.outcomes] if s.law else [])
            return plain[key]

        # depth-first over words, sharing prefixes; a node is (object, transformations so far, observations so far in this frame)
        def visit(word, obj, frames, kn, obs, noise):
            if len(word) == u["depth"]:
                return
            for kind, i in letters:
                w = [*word, (kind, i)]
                names = [f"{s.batches[j]}" if k == "batch" else s.frames[j].name for k, j in w]
                info = dict(system=s.name, prior=h0, known=k0, word=names)
                with ctx.guard(f"{s.name}:step", **info):
                    ctx.step()
                    if kind == "batch":
                        batch = s.batches[i]
                        for f in frames:
                            batch = [f.x(o) for o in batch]
                        obj2 = s.update(obj, batch, kn)
                        obs2, frames2, kn2, noise2 = obs + batch, frames, kn, dict(noise)
                    else:
                        f = present(s.frames[i], math.prod(g.scale for g in frames))
                        h = s.canon(obj)
                        h = f.p(gauge(h, kn))
                        obj2 = s.make({k: v for k, v in h.items() if not k.startswith("_")})
                        obs2, frames2, kn2 = [f.x(o) for o in obs], [*frames, f], f.k(kn)
                        noise2 = {k: v * (f.scale ** POWER.get(k, 0) if k in POWER else 1.0) for k, v in noise.items()}
                    if s.noise:
                        hh = {**s.canon(obj2)}
                        if "mu" in kn2:
                            hh["_mu"] = float(np.max(np.abs(kn2["mu"])))
                        for k, v in s.noise(hh, obs2).items():
                            noise2[k] = max(noise2.get(k, 0.0), v)
                    if judge(s, w, info, obj2, frames2, kn2, noise2, straight, h0, k0, gauge, relative, ctx):
                        visit(w, obj2, frames2, kn2, obs2, noise2)

        root = s.make(h0)
        start = {**s.canon(root), **({"_mu": float(np.max(np.abs(k0["mu"])))} if "mu" in k0 else {})}
        visit([], root, [], k0, [], dict(s.noise(start, [])) if s.noise else {})
    ctx.sample(system=s.name, batches=s.batches, frames=[f.name for f in s.frames], priors=len(u["pk"]))


def judge(s, word, info, obj, frames, kn, noise, straight, h0, k0, gauge, relative, ctx):
    base, h, logs = straight(word)
    k = k0
    for f in frames:
        h = f.p(gauge(h, k))
        k = f.k(k)
    got = s.canon(obj)
    for name, g in got.items():
        bad = close(g, h[name], s.rtol, 1e-12 * noise.get(name, 0.0))
        if bad:
            ctx.fail(f"{s.name}:posterior:{name}", f"{s.name}: {name} is {bad} after {info['word']}", **info)
            return False
    if s.law and frames:
        law = s.law(obj, kn)
        jac = sum(f.jac for f in frames)
        gs, es = [], []
        for y, e in zip(s.outcomes, logs):
            for f in frames:  # the outcome rewritten as the observations were
                y = f.y(y)
            gs.append(float(np.reshape(law(y), ())))
            es.append(float(np.reshape(e, ())) - (0.0 if relative else jac))
        if relative:
            gs, es = centred(gs), centred(es)
        # a relative error r of a scale parameter moves the log density by about r times the size of its exponent
        sens = 1e-7 if not s.noise else (1e-6 if got and any(np.ndim(v) == 2 for v in got.values()) else 1e-7) + sum(1e-12 * v / max(1e-300, float(np.max(np.abs(np.asarray(got[n], float))))) for n, v in noise.items() if n in got and n not in ("mu", "C", "S", "r")) * 10
        for y, g, e in zip(s.outcomes, gs, es):
            if not (g == e or (math.isnan(g) and math.isnan(e)) or abs(g - e) <= sens * (1 + abs(e) + (max(abs(v) for v in es if np.isfinite(v)) if relative else 0))):
                ctx.fail(f"{s.name}:predictive", f"{s.name}: log density {g!r} instead of {e!r} at {y!r} (rewritten) after {info['word']}", **info)
                return False
    ctx.state((s.name, str(h0), str(k0), str(word)))
    ctx.eval(key=(s.name, str(h0), str(k0), str(word)))
    ctx.trace()
    return True
