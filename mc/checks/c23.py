"""C23 User-supplied numeric functions are used throughout.

Exact chains: every history of batches up to a depth is absorbed in rational arithmetic with a rational inverse, identity
and outer product, NumPy's own being out of order meanwhile; all results must be exactly the reference's rationals.
Symbolic runs: every subset of arguments is replaced by symbols that nothing but the given functions can take, and the
resulting expression is evaluated. Equivalents: every choice of an equivalent function for every helper.
"""

import contextlib
import itertools
import math
from fractions import Fraction

import numpy as np
import scipy.linalg
import scipy.special as sp

from conjugate import distributions as D
from conjugate import models as M
from mc import ref
from mc.checks.c13 import FUNCS, Num, fun, subsets, value, var
from mc.mvspec import MU, PD, ROWS, YS
from mc.ref import F

ID = "C23"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all histories in exact rational arithmetic with NumPy's own functions out of order, exhaustive enumeration of symbolic argument subsets and of equivalent replacements"
RULE = (
    "distinct (function, prior, history, numeric type) computed exactly with replacements; (function, subset of symbolic arguments, values); "
    "(function, choice of an equivalent for each helper, values)"
)
ASSUMPTIONS = [
    "the scale beta of a regression is rounded to a float by the factor 0.5, so that it is compared up to rounding",
    "a replacement of the matrix inverse may be given one matrix or a stack of matrices",
    "scipy.special.i0 given explicitly as i0 is the default and not a replacement",
]
BOUNDS = {
    "quick": "dimensions 1 to 3, 3 to 6 priors (one Hilbert matrix per dimension), all histories of up to 2 batches from 5 rows; all subsets of up to "
    "5 symbolic arguments x 5 rows of values; all pairs of equivalents",
    "thorough": "all histories of up to 4 batches",
}

FUNCS = {**FUNCS, "gammaln": math.lgamma, "i0": lambda x: float(sp.i0(x))}


# -- exact matrices --------------------------------------------------------------------------------


def obj(rows):
    """object array of fractions"""
    a = np.empty(np.shape(rows), dtype=object)
    for i in np.ndindex(a.shape):
        v = rows
        for k in i:
            v = v[k]
        a[i] = F(v)
    return a


def hilbert(d):
    return [[Fraction(1, i + j + 1) for j in range(d)] for i in range(d)]


class Calls:
    """exact helpers that count what they are asked"""

    def __init__(self):
        self.n = {"inv": 0, "eye": 0, "outer": 0}

    def inv(self, A):
        self.n["inv"] += 1
        A = np.asarray(A)
        if A.ndim == 3:
            return np.stack([self.inv(a) for a in A])
        if not all(isinstance(x, (Fraction, int, np.integer)) for x in A.ravel()):
            raise TypeError(f"the inverse was given inexact numbers: {A!r}")
        return obj(ref.minv([[F(x) for x in row] for row in A]))

    def eye(self, n):
        self.n["eye"] += 1
        return obj(ref.eye(int(n)))

    def outer(self, u, v):
        self.n["outer"] += 1
        u, v = list(np.ravel(u)), list(np.ravel(v))
        return obj([[F(a) * F(b) for b in v] for a in u])


POISON = [(np.linalg, n) for n in ("inv", "pinv", "solve", "lstsq", "tensorinv")] + [(np, n) for n in ("eye", "identity", "outer")]
POISON += [(scipy.linalg, n) for n in ("inv", "pinv", "solve", "lstsq", "cho_solve")]


@contextlib.contextmanager
def out_of_order(*names):
    """NumPy's and SciPy's own functions of this kind must not be needed"""
    saved = [(m, n, getattr(m, n)) for m, n in POISON if n in names]

    def broken(n):
        def f(*a, **k):
            raise AssertionError(f"{n} was used although a replacement was given")

        return f

    try:
        for m, n, _ in saved:
            setattr(m, n, broken(n))
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


INVERSES = ("inv", "pinv", "solve", "lstsq", "tensorinv", "cho_solve")


def exactly(got, want):
    g = np.asarray(got, dtype=object)
    w = np.asarray(want, dtype=object)
    if g.shape != w.shape:
        return f"shape {g.shape} instead of {w.shape}"
    for i in np.ndindex(w.shape):
        v = g[i]
        if isinstance(v, (float, np.floating)):
            return f"{v!r} at {i} is not exact, should be {w[i]}"
        if v != w[i]:
            return f"{v} at {i} instead of {w[i]}"
    return None


def rows_of(hist, d):
    return obj([r for b in hist for r in b]).reshape(-1, d)


def batches(d, tier):
    R = [obj(r) for r in ROWS[d]]
    single = [(tuple(r),) for r in R]
    double = [(tuple(R[i]), tuple(R[j])) for i, j in ((0, 1), (1, 2), (2, 3), (3, 3))]
    return [(), *single, *double]


def PSD(d):
    return [*PD[d], hilbert(d)]


def chain(name, ctx, d):
    """all histories, in exact arithmetic"""
    depth = 2 if ctx.tier == "quick" else (4 if d < 3 else 3)
    bs = batches(d, ctx.tier)
    if name == "multivariate_normal":  # the mean of no rows is a float zero
        bs = [b for b in bs if b]
    if ctx.tier == "thorough":
        bs = bs[:7]
    for i, (pm, mu) in enumerate(itertools.product(PSD(d), MU[d])):
        for j, km in enumerate(PSD(d) if "known" in name else [None]):
            start = EXACT[name]["prior"](obj(pm), obj(mu), d)
            todo = [((), start)]
            while todo:
                hist, prior = todo.pop()
                ctx.state((name, d, i, j, hist))
                ctx.eval(1, (name, d, i, j, hist))
                what = f"{name} in exact arithmetic after {len(hist)} batches {[[list(map(str, r)) for r in b] for b in hist]} (prior {i}, known {j})"
                with ctx.guard(f"exact:{name}", what):
                    known = None if km is None else obj(km)
                    bad = EXACT[name]["judge"](prior, hist, obj(pm), obj(mu), known, d)
                    if bad:
                        ctx.fail(f"exact:{name}", f"{what}: {bad}")
                        continue
                    ctx.trace()
                    if EXACT[name].get("predict"):
                        calls = Calls()
                        bad = EXACT[name]["predict"](prior, known, d, calls)
                        if bad:
                            ctx.fail(f"exact:{name}:predictive", f"{what}: predictive {bad}")
                if len(hist) == depth:
                    continue
                for b in bs:
                    calls = Calls()
                    w2 = f"{what} and then {[list(map(str, r)) for r in b]}"
                    with ctx.guard(f"exact:{name}:update", w2):
                        nxt = EXACT[name]["update"](prior, b, known, d, calls)
                        ctx.step()
                        for h in EXACT[name]["needs"]:
                            if b and not calls.n[h]:
                                ctx.fail(f"exact:{name}:unused", f"{w2}: the given {h} was never called")
                        todo.append(((*hist, b), nxt))
    ctx.sample(function=name, dimension=d, depth=depth, batches=len(bs))


def ysum(b, d):
    """outcomes of a batch of regression rows"""
    return obj([sum((F(v) * (k + 1) for k, v in enumerate(r)), F(YS[i % 3])) for i, r in enumerate(b)]).reshape(-1)


def ref_linreg(hist, pm, mu):
    P = ref.minv([list(r) for r in pm])
    b = ref.mv(P, list(mu))
    yy = F(0)
    n = 0
    q0 = ref.vdot(list(mu), b)
    for batch in hist:
        ys = ysum(batch, len(mu))
        for r, y in zip(batch, ys):
            P = ref.madd(P, ref.vouter(list(r), list(r)))
            b = [u + v * y for u, v in zip(b, r)]
            yy += y * y
            n += 1
    cov = ref.minv(P)
    m = ref.mv(cov, b)
    return m, cov, F(2) + F(n) / 2, F(3) + (yy + q0 - ref.vdot(m, b)) / 2


def judge_linreg(prior, hist, pm, mu, known, d):
    m, cov, a, b = ref_linreg(hist, pm, mu)
    bad = exactly(prior.mu, obj(m)) or exactly(prior.delta_inverse, obj(cov))
    if bad:
        return bad
    if not ref.close(prior.alpha, a, 1e-14) or not ref.close(prior.beta, b, 1e-12):
        return f"alpha, beta = {prior.alpha}, {prior.beta} instead of {float(a)}, {float(b)}"
    return None


def update_linreg(prior, b, known, d, calls):
    X = obj(b).reshape(-1, d) if b else np.empty((0, d), dtype=object)
    y = ysum(b, d) if b else np.empty((0,), dtype=object)
    with out_of_order(*INVERSES):
        return M.linear_regression(X=X, y=y, prior=prior, inv=calls.inv)


def predict_linreg(prior, known, d, calls):
    prior = D.NormalInverseGamma(mu=prior.mu, delta_inverse=prior.delta_inverse, alpha=F(prior.alpha), beta=F(prior.beta))
    for X in (obj(ROWS[d]), obj(ROWS[d][1:2])):
        with out_of_order("eye", "identity"):
            p = M.linear_regression_predictive(distribution=prior, X=X, eye=calls.eye)
        rows = [list(r) for r in X]
        cov = [list(r) for r in prior.delta_inverse]
        want = ref.mscale(prior.beta / prior.alpha, ref.madd(ref.eye(len(rows)), ref.mm(ref.mm(rows, cov), ref.mT(rows))))
        bad = exactly(p.mu, obj(ref.mv(rows, list(prior.mu)))) or exactly(p.sigma, obj(want))
        if bad:
            return bad
    return None if calls.n["eye"] else "the given eye was never called"


def judge_known(prior, hist, pm, mu, known, d, precision=False):
    K = [list(r) for r in known] if precision else ref.minv([list(r) for r in known])
    P = ref.minv([list(r) for r in pm])
    b = ref.mv(P, list(mu))
    for batch in hist:
        for r in batch:
            P = ref.madd(P, K)
            b = [u + v for u, v in zip(b, ref.mv(K, list(r)))]
    cov = ref.minv(P)
    return exactly(prior.mu, obj(ref.mv(cov, b))) or exactly(prior.cov, obj(cov))


def xbar(b, d):
    return obj([sum((F(r[k]) for r in b), F(0)) / max(len(b), 1) for k in range(d)])


def update_known(which):
    def update(prior, b, known, d, calls):
        kw = {"cov" if which == "covariance" else "precision": known}
        with out_of_order(*INVERSES):
            return getattr(M, f"multivariate_normal_known_{which}")(n=len(b), x_bar=xbar(b, d), prior=prior, inv=calls.inv, **kw)

    return update


def predict_known(which):
    def predict(prior, known, d, calls):
        if which == "covariance":
            p = M.multivariate_normal_known_covariance_predictive(distribution=prior, cov=known)
            want = ref.madd([list(r) for r in prior.cov], [list(r) for r in known])
        else:
            with out_of_order(*INVERSES):
                p = M.multivariate_normal_known_precision_predictive(distribution=prior, precision=known, inv=calls.inv)
            if not calls.n["inv"]:
                return "the given inv was never called"
            want = ref.madd([list(r) for r in prior.cov], ref.minv([list(r) for r in known]))
        return exactly(p.mu, prior.mu) or exactly(p.cov, obj(want))

    return predict


KAPPA, NU = Fraction(3, 2), Fraction(11, 2)


def judge_niw(prior, hist, pm, mu, known, d):
    rows = [list(r) for b in hist for r in b]
    n = len(rows)
    kap = KAPPA + n
    m = [(KAPPA * u + sum((r[k] for r in rows), F(0))) / kap for k, u in enumerate(mu)]
    psi = ref.madd([list(r) for r in pm], ref.mscale(KAPPA, ref.vouter(list(mu), list(mu))))
    for r in rows:
        psi = ref.madd(psi, ref.vouter(r, r))
    psi = ref.msub(psi, ref.mscale(kap, ref.vouter(m, m)))
    return exactly(prior.mu, obj(m)) or exactly(prior.psi, obj(psi)) or exactly(prior.kappa, kap) or exactly(prior.nu, NU + n)


def update_niw(prior, b, known, d, calls):
    X = obj(b).reshape(-1, d) if b else np.empty((0, d), dtype=object)
    with out_of_order("outer"):
        return M.multivariate_normal(X=X, prior=prior, outer=calls.outer)


EXACT = {
    "linear_regression": {
        "prior": lambda pm, mu, d: D.NormalInverseGamma(mu=mu, delta_inverse=pm, alpha=F(2), beta=F(3)),
        "update": update_linreg, "judge": judge_linreg, "predict": predict_linreg, "needs": ("inv",),
    },
    "multivariate_normal_known_covariance": {
        "prior": lambda pm, mu, d: D.MultivariateNormal(mu=mu, cov=pm),
        "update": update_known("covariance"), "judge": judge_known, "predict": predict_known("covariance"), "needs": ("inv",),
    },
    "multivariate_normal_known_precision": {
        "prior": lambda pm, mu, d: D.MultivariateNormal(mu=mu, cov=pm),
        "update": update_known("precision"), "judge": lambda *a: judge_known(*a, precision=True), "predict": predict_known("precision"), "needs": ("inv",),
    },
    "multivariate_normal": {
        "prior": lambda pm, mu, d: D.NormalInverseWishart(mu=mu, kappa=KAPPA, nu=NU, psi=pm),
        "update": update_niw, "judge": judge_niw, "needs": ("outer",),
    },
}


# -- scalar functions ------------------------------------------------------------------------------


class Fn:
    def __init__(self, name, target, args, helpers, want, rows):
        self.name, self.target, self.args, self.helpers, self.want, self.rows = name, target, args, helpers, want, rows


def post(fn, cls, fields, args):
    def call(v, helpers):
        prior = getattr(D, cls)(**{f: v[f"prior.{f}"] for f in fields})
        return vars_of(getattr(M, fn)(prior=prior, **{a: v[a] for a in args}, **helpers), fields)

    return call


def vars_of(o, fields):
    return {f: getattr(o, f) for f in fields}


def kernel(cls, fields, method, args):
    def call(v, helpers):
        o = getattr(D, cls)(**{f: v[f"prior.{f}"] for f in fields})
        return {"value": getattr(o, method)(**{a: v[a] for a in args}, **helpers)}

    return call


def rows(**kw):
    n = max(len(v) for v in kw.values())
    return [{k.replace("__", "prior.") if k.startswith("__") else k: v[i % len(v)] for k, v in kw.items()} for i in range(n)]


def vm_want(v):
    s = v["prior.a"] * math.sin(v["prior.b"]) + v["kappa"] * v["sin_total"]
    c = v["prior.a"] * math.cos(v["prior.b"]) + v["kappa"] * v["cos_total"]
    return {"a": math.hypot(s, c), "b": math.atan2(s, c) % (2 * math.pi)}


def lni0(k):
    return math.log(float(sp.i0e(k))) + k


SCALAR = {
    "uniform_pareto": Fn("uniform_pareto", "model", post("uniform_pareto", "Pareto", ("x_m", "alpha"), ("x_max", "n")), {"max_fn": ("max", {"prior.x_m", "x_max"})},
                         lambda v: {"x_m": max(v["prior.x_m"], v["x_max"]), "alpha": v["prior.alpha"] + v["n"]},
                         rows(__x_m=[1, 3, 0.5, 2.25, 10, 1.0, 2], __alpha=[1, 2.5], x_max=[2, 3, 0.25, 7, 2.5, -1, 2], n=[1, 0, 3, 10])),
    "pareto_gamma": Fn("pareto_gamma", "model", post("pareto_gamma", "Gamma", ("alpha", "beta"), ("n", "ln_x_total", "x_m")), {"ln": ("ln", {"x_m"})},
                       lambda v: {"alpha": v["prior.alpha"] + v["n"], "beta": v["prior.beta"] + v["ln_x_total"] - v["n"] * math.log(v["x_m"])},
                       rows(__alpha=[1, 2.5, 0.5], __beta=[1, 30, 0.25, 4], n=[1, 2, 10, 3, 0], ln_x_total=[0.5, 2.5, 11, 9.25, 0], x_m=[0.5, 2, 1, 0.01, 3])),
    "von_mises_known_concentration": Fn(
        "von_mises_known_concentration", "model",
        post("von_mises_known_concentration", "VonMisesKnownConcentration", ("a", "b"), ("cos_total", "sin_total", "n", "kappa")),
        {"sin": ("sin", {"prior.b"}), "cos": ("cos", {"prior.b"}), "arctan2": ("arctan2", {"prior.a", "prior.b", "cos_total", "sin_total", "kappa"})}, vm_want,
        rows(__a=[1, 2.5, 0.1, 7, 3], __b=[0.5, 3, 6, 1, 4.5, 0, 0.0], cos_total=[0.5, -1.5, 2.25, -3], sin_total=[1, -0.25, -2, 0.75, 3.5], n=[1, 2, 3, 4], kappa=[1, 0.5, 4, 2.5, 10])),
    "GammaKnownRateProportional.approx_log_likelihood": Fn(
        "x", "kernel", kernel("GammaKnownRateProportional", ("a", "b", "c"), "approx_log_likelihood", ("alpha", "beta")),
        {"ln": ("ln", {"prior.a", "beta"}), "gammaln": ("gammaln", {"alpha"})},
        lambda v: {"value": (v["alpha"] - 1) * math.log(v["prior.a"]) + v["alpha"] * v["prior.c"] * math.log(v["beta"]) - v["prior.b"] * math.lgamma(v["alpha"])},
        rows(__a=[2, 0.5, 30, 7.5, 3, 1, 1.0], __b=[1, 2.5, 4, 10], __c=[3, 1.5, 8], alpha=[0.5, 2, 3.25, 10, 0.01, 1, 1.0, 2], beta=[0.25, 3, 7.5, 20, 2, 1, 1.0, 1])),
    "GammaProportional.approx_log_likelihood": Fn(
        "x", "kernel", kernel("GammaProportional", ("p", "q", "r", "s"), "approx_log_likelihood", ("alpha", "beta")),
        {"ln": ("ln", {"prior.p", "beta"}), "gammaln": ("gammaln", {"alpha"})},
        lambda v: {"value": (v["alpha"] - 1) * math.log(v["prior.p"]) - v["prior.q"] * v["beta"] - v["prior.r"] * math.lgamma(v["alpha"])
                   + v["prior.s"] * v["alpha"] * math.log(v["beta"])},
        rows(__p=[2, 0.5, 30, 7.5, 3, 1, 1.0], __q=[1, 2.5, 4, 10], __r=[3, 1.5, 8], __s=[2, 5.5, 1, 0.25, 6], alpha=[0.5, 2, 3.25, 10, 0.01, 1, 1.0, 2], beta=[0.25, 3, 7.5, 20, 2, 1, 1.0, 1])),
    "BetaProportional.approx_log_likelihood": Fn(
        "x", "kernel", kernel("BetaProportional", ("p", "q", "k"), "approx_log_likelihood", ("alpha", "beta")),
        {"ln": ("ln", {"prior.p", "prior.q"}), "gammaln": ("gammaln", {"alpha", "beta"})},
        lambda v: {"value": v["prior.k"] * (math.lgamma(v["alpha"] + v["beta"]) - math.lgamma(v["alpha"]) - math.lgamma(v["beta"]))
                   + v["alpha"] * math.log(v["prior.p"]) + v["beta"] * math.log(v["prior.q"])},
        rows(__p=[0.2, 0.5, 1e-3, 0.75, 0.9, 1, 1.0], __q=[0.1, 0.25, 0.01, 0.6], __k=[3, 1.5, 8], alpha=[0.5, 2, 3.25, 10, 0.01, 1, 1.0, 2], beta=[0.25, 3, 7.5, 20, 2, 1, 1.0, 1])),
    "VonMisesKnownConcentration.log_likelihood": Fn(
        "x", "kernel", kernel("VonMisesKnownConcentration", ("a", "b"), "log_likelihood", ("mu",)),
        {"cos": ("cos", {"mu", "prior.b"}), "ln": ("ln", {"prior.a"}), "i0": ("i0", {"prior.a"})},
        lambda v: {"value": v["prior.a"] * math.cos(v["mu"] - v["prior.b"]) - lni0(v["prior.a"])},
        rows(__a=[2, 0.5, 30, 7.5, 3, 1, 1.0, 4], __b=[1, 2.5, 4, 6, 0, 0.0, 1, 0], mu=[0.5, 2, -3, 1, 0.01, 0.25, 1, 0])),
    "VonMisesKnownDirectionProportional.approx_log_likelihood": Fn(
        "x", "kernel", kernel("VonMisesKnownDirectionProportional", ("c", "r"), "approx_log_likelihood", ("kappa",)),
        {"ln": ("ln", {"kappa"}), "i0": ("i0", {"kappa"})},
        lambda v: {"value": v["kappa"] * v["prior.r"] - v["prior.c"] * lni0(v["kappa"])},
        rows(__c=[2, 5.5, 30, 7, 3], __r=[1, 2.5, 4, -6, 0], kappa=[0.5, 2, 3, 1, 0.01, 1.0, 5])),
}


def vfun(f):
    def g(*a):
        if all(np.ndim(x) == 0 for x in a):
            return f(*map(float, a))
        return np.vectorize(f, otypes=[float])(*a)

    return g


EQUIV = {
    "max": [np.maximum, np.fmax, lambda a, b: np.where(np.asarray(a) > b, a, b), lambda a, b: (a + b + abs(a - b)) / 2],
    "ln": [np.log, vfun(math.log), lambda x: np.log2(x) * math.log(2), lambda x: np.log1p(x - 1.0)],
    "sin": [np.sin, vfun(math.sin), lambda x: np.cos(x - math.pi / 2), lambda x: np.imag(np.exp(1j * np.asarray(x)))],
    "cos": [np.cos, vfun(math.cos), lambda x: np.sin(x + math.pi / 2), lambda x: np.real(np.exp(1j * np.asarray(x)))],
    "arctan2": [np.arctan2, vfun(math.atan2), lambda y, x: np.angle(np.asarray(x) + 1j * np.asarray(y)), lambda y, x: np.arctan2(y, x) + 2 * math.pi],
    "gammaln": [sp.gammaln, vfun(math.lgamma), lambda x: np.real(sp.loggamma(x)), lambda x: sp.gammaln(x + 1.0) - np.log(x)],
    "i0": [sp.i0, lambda x: sp.iv(0, x), lambda x: sp.i0e(x) * np.exp(x), np.i0],
}


def units(tier):
    out = [{"exact": n, "d": d} for n in EXACT for d in (1, 2, 3)]
    out += [{"symbolic": n} for n in SCALAR] + [{"equivalent": n} for n in SCALAR]
    out += [{"matrix": 1}, {"wishart": 1}, {"products": 1}, {"large": 1}]
    return out


def run(unit, ctx):
    if "exact" in unit:
        chain(unit["exact"], ctx, unit["d"])
    elif "symbolic" in unit:
        symbolic(unit["symbolic"], ctx)
    elif "equivalent" in unit:
        equivalent(unit["equivalent"], ctx)
    else:
        {"matrix": matrix, "wishart": wishart, "products": products, "large": large}[next(iter(unit))](ctx)


def evaluate(e, env):
    if not isinstance(e, Num):
        return float(e)
    if e.op == "call":
        return FUNCS[e.args[0]](*[evaluate(a, env) for a in e.args[1:]])
    if e.op == "var":
        return float(env[e.args[0]])
    if e.op == "neg":
        return -evaluate(e.args[0], env)
    return value(Num(e.op, *[evaluate(a, env) for a in e.args]), env)


def near(name, k, a, b, tol=1e-9):
    if name == "von_mises_known_concentration" and k == "b":
        return ref.close(math.cos(a), math.cos(b), 0, 1e-7) and ref.close(math.sin(a), math.sin(b), 0, 1e-7)
    return ref.close(a, b, tol, tol)


def symbolic(name, ctx):
    f = SCALAR[name]
    rs = f.rows
    sites = list(rs[0])
    for sub in subsets(sites):
        for base, row in enumerate(rs):
            used = []

            def helper(h, kind):
                def g(*a):
                    used.append(h)
                    return Num("call", kind, *a)

                return g

            hs = {h: helper(h, kind) for h, (kind, _) in f.helpers.items()}
            vals = {k: (var(k) if k in sub else v) for k, v in row.items()}
            what = f"{name} of {vals_text(vals)} with symbolic {', '.join(hs)}"
            ctx.eval(1, (name, sub, base))
            ctx.state((name, sub, base))
            with ctx.guard(f"symbolic:{name}", what):
                got = f.args(vals, hs)
                missing = set(hs) - set(used)
                if missing:
                    ctx.fail(f"symbolic:{name}:unused", f"{what}: {sorted(missing)} never called")
                for at, other in enumerate(rs):
                    env = {**row, **{k: other[k] for k in sub}}
                    for k, w in f.want(env).items():
                        g = evaluate(got[k], env)
                        if not near(name, k, g, w):
                            ctx.fail(f"symbolic:{name}", f"{what}: {k} is {g} at {env} instead of {w}")
                ctx.step()
                ctx.trace()
    ctx.sample(function=name, kind="symbolic", subsets=2 ** len(sites), rows=len(rs))


def vals_text(vals):
    return ", ".join(f"{k}={'symbol' if isinstance(v, Num) else v}" for k, v in vals.items())


def equivalent(name, ctx):
    f = SCALAR[name]
    names = list(f.helpers)
    choices = [[None, *range(len(EQUIV[f.helpers[h][0]]))] for h in names]
    forms = {"scalar": None, "vector": 1, "column": 2}
    for combo in itertools.product(*choices):
        counts = {}

        def counted(h, g):
            def call(*a):
                counts[h] = counts.get(h, 0) + 1
                return g(*a)

            return call

        hs = {h: counted(h, EQUIV[f.helpers[h][0]][c]) for h, c in zip(names, combo) if c is not None}
        for form in forms:
            keys = list(f.rows[0])
            if form == "scalar":
                cases = [(dict(r), [r]) for r in f.rows]
            else:
                arrs = {k: np.array([r[k] for r in f.rows], float) for k in keys}
                if form == "column":
                    first = keys[0]
                    arrs = {k: (v[:, None] if k == first else v) for k, v in arrs.items()}
                    flat = [{**r, first: q[first]} for q in f.rows for r in f.rows]
                else:
                    flat = f.rows
                cases = [(arrs, flat)]
            for vals, rs in cases:
                counts.clear()
                what = f"{name} with {dict(zip(names, combo))} as {form}"
                ctx.eval(1, (name, combo, form, repr(vals)))
                ctx.state((name, combo, form, repr(vals)))
                with ctx.guard(f"equivalent:{name}", what):
                    got = f.args(vals, hs)
                    for h in hs:
                        if not counts.get(h):
                            ctx.fail(f"equivalent:{name}:unused", f"{what}: {h} never called")
                    for k in got:
                        w = [f.want(r)[k] for r in rs]
                        g = np.broadcast_to(np.asarray(got[k], float), np.broadcast_shapes(*[np.shape(v) for v in vals.values()])).ravel()
                        for a, b, r in zip(g, w, rs):
                            if not near(name, k, a, b):
                                ctx.fail(f"equivalent:{name}", f"{what}: {k} = {a} instead of {b} at {r}")
                    ctx.step()
    ctx.sample(function=name, kind="equivalent", choices=math.prod(map(len, choices)))


# -- equivalents of matrix helpers -----------------------------------------------------------------


def stacks(f):
    def g(A):
        A = np.asarray(A, float)
        return np.stack([g(a) for a in A]) if A.ndim > 2 else np.asarray(f(A), float)

    return g


MAT = {
    "inv": [np.linalg.inv, stacks(lambda A: ref.tofloat(ref.minv([list(r) for r in A]))), np.linalg.pinv, stacks(scipy.linalg.inv),
            stacks(lambda A: np.linalg.solve(A, np.eye(len(A))))],
    "eye": [np.eye, np.identity, lambda n: np.diag(np.ones(n)), lambda n: np.array(ref.tofloat(ref.eye(n)))],
    "outer": [np.outer, np.multiply.outer, lambda u, v: np.asarray(u)[:, None] * np.asarray(v)[None, :], lambda u, v: np.einsum("i,j->ij", u, v)],
}


def matrix(ctx):
    for d in (1, 2, 3):
        X = np.array(ROWS[d], float)
        y = np.array([YS[i % 3] for i in range(len(X))], float)
        for (i, pm), (j, km), mu in itertools.product(enumerate(PD[d]), enumerate(PD[d]), MU[d]):
            pm, km, mu = np.array(pm, float), np.array(km, float), np.array(mu, float)
            nig = D.NormalInverseGamma(mu=mu, delta_inverse=pm, alpha=2, beta=3)
            mvn = D.MultivariateNormal(mu=mu, cov=pm)
            niw = D.NormalInverseWishart(mu=mu, kappa=2, nu=d + 1, psi=pm)
            calls = {
                "linear_regression": ("inv", lambda **h: M.linear_regression(X=X, y=y, prior=nig, **h), ("mu", "delta_inverse", "alpha", "beta")),
                "linear_regression_predictive": ("eye", lambda **h: M.linear_regression_predictive(X=X, distribution=nig, **h), ("mu", "sigma", "nu")),
                "multivariate_normal_known_covariance": ("inv", lambda **h: M.multivariate_normal_known_covariance(n=len(X), x_bar=X.mean(axis=0), cov=km, prior=mvn, **h), ("mu", "cov")),
                "multivariate_normal_known_precision": ("inv", lambda **h: M.multivariate_normal_known_precision(n=len(X), x_bar=X.mean(axis=0), precision=km, prior=mvn, **h), ("mu", "cov")),
                "multivariate_normal_known_precision_predictive": ("inv", lambda **h: M.multivariate_normal_known_precision_predictive(precision=km, distribution=mvn, **h), ("mu", "cov")),
                "multivariate_normal": ("outer", lambda **h: M.multivariate_normal(X=X, prior=niw, **h), ("mu", "kappa", "nu", "psi")),
            }
            for name, (h, call, fields) in calls.items():
                with ctx.guard(f"matrix:{name}", f"{name} in {d} dimensions"):
                    base = call()
                    for k, g in enumerate(MAT[h]):
                        n = [0]

                        def counted(*a, g=g, n=n):
                            n[0] += 1
                            return g(*a)

                        what = f"{name} in {d} dimensions (prior {i}, known {j}) with equivalent {k} of {h}"
                        ctx.eval(1, (name, d, i, j, tuple(mu), k))
                        ctx.state((name, d, i, j, tuple(mu), k))
                        # the other NumPy functions of the kind are out of order where the replacement does not need them
                        bar = INVERSES if (h, k) == ("inv", 1) else ("outer",) if (h, k) == ("outer", 3) else ("eye", "identity") if (h, k) == ("eye", 3) else ()
                        with out_of_order(*bar):
                            got = call(**{h: counted})
                        ctx.step()
                        if not n[0]:
                            ctx.fail(f"matrix:{name}:unused", f"{what}: never called")
                        for fld in fields:
                            a, b = np.asarray(getattr(got, fld), float), np.asarray(getattr(base, fld), float)
                            if a.shape != b.shape or not np.allclose(a, b, rtol=1e-7, atol=1e-7 * max(1.0, float(np.max(np.abs(b))))):
                                ctx.fail(f"matrix:{name}", f"{what}: {fld} = {a} instead of {b}")
    ctx.sample(kind="equivalents of matrix helpers", inverses=len(MAT["inv"]))


def wishart(ctx):
    """the variances of a normal Wishart are the inverses, by the given function, of the precisions"""
    for d, size, seed, k in itertools.product((1, 2, 3), (1, 2, 5), (0, 1), range(len(MAT["inv"]) + 1)):
        for i, W in enumerate(PD[d]):
            nw = D.NormalWishart(mu=np.zeros(d), lam=3.0, W=np.array(W, float), nu=d + 2.5)
            what = f"NormalWishart.sample_variance(size={size}) in {d} dimensions with inverse {k}"
            for rs in ("int", "generator"):
                state = (lambda: seed) if rs == "int" else (lambda: np.random.default_rng(seed))
                with ctx.guard("wishart", what):
                    base = np.asarray(nw.sample_variance(size=size, random_state=state()))
                    n = [0]
                    given = []

                    def counted(A):
                        n[0] += 1
                        if k == len(MAT["inv"]):  # a function with an inverse of its own: precisions pass through unchanged
                            given.append(np.array(A, float, copy=True))
                            return A
                        return MAT["inv"][k](A)

                    with out_of_order(*(INVERSES if k in (1, len(MAT["inv"])) else ())):
                        got = np.asarray(nw.sample_variance(size=size, random_state=state(), inv=counted))
                    ctx.eval(1, (d, size, seed, k, i, rs))
                    ctx.state((d, size, seed, k, i, rs))
                    ctx.step()
                    if not n[0]:
                        ctx.fail("wishart:unused", f"{what}: never called")
                        continue
                    want = base if given == [] else np.concatenate([np.reshape(np.linalg.inv(np.reshape(g, (-1, d, d))), (-1, d, d)) for g in given])
                    got = got if given == [] else np.linalg.inv(np.reshape(got, (-1, d, d)))
                    want = want.reshape(base.shape)
                    if got.shape != base.shape or not np.allclose(got, base, rtol=1e-6) or not np.allclose(want, base, rtol=1e-6):
                        ctx.fail("wishart", f"{what}: {got} instead of {base}")
    ctx.sample(kind="NormalWishart.sample_variance")


# -- numbers that only the replacement can handle --------------------------------------------------


class Product:
    """a positive number held as its logarithm: products of many observations neither under- nor overflow"""

    __array_ufunc__ = None

    def __init__(self, log):
        self.log = log

    def __mul__(self, other):
        if isinstance(other, Product):
            return Product(self.log + other.log)
        return Product(self.log + math.log(other))

    __rmul__ = __mul__


def plog(x):
    return x.log if isinstance(x, Product) else math.log(x)


def products(ctx):
    """the proportional priors after thousands of observations, their products held as logarithms"""
    cases = [(0.001, 50), (0.5, 3000), (0.999, 10), (1e-9, 400), (0.2, 1)]
    grid = [(0.5, 0.25), (2, 3), (3.25, 20), (10, 2)]
    depth = 2 if ctx.tier == "quick" else 4
    for hist in itertools.chain.from_iterable(itertools.product(cases, repeat=r) for r in range(1, depth + 1)):
        n = sum(k for _, k in hist)
        lx = sum(k * math.log(x) for x, k in hist)
        l1 = sum(k * math.log1p(-x) for x, k in hist)
        sx = sum(k * x for x, k in hist)
        with ctx.guard("products", f"products of {hist}"):
            kr, gp, bp = D.GammaKnownRateProportional(a=2, b=1, c=1), D.GammaProportional(p=2, q=3, r=1, s=1), D.BetaProportional(p=0.5, q=0.25, k=1)
            for x, k in hist:
                px, p1 = Product(k * math.log(x)), Product(k * math.log1p(-x))
                kr = M.gamma_known_rate(x_prod=px, n=k, beta=3, prior=kr)
                gp = M.gamma(x_total=k * x, x_prod=px, n=k, prior=gp)
                bp = M.beta(x_prod=px, one_minus_x_prod=p1, n=k, prior=bp)
                ctx.step(3)
            ctx.state(hist)
            for a, b in grid:
                want = {
                    "GammaKnownRateProportional": (a - 1) * (math.log(2) + lx) + a * (1 + n) * math.log(b) - (1 + n) * math.lgamma(a),
                    "GammaProportional": (a - 1) * (math.log(2) + lx) - (3 + sx) * b - (1 + n) * math.lgamma(a) + (1 + n) * a * math.log(b),
                    "BetaProportional": (1 + n) * (math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b)) + a * (math.log(0.5) + lx) + b * (math.log(0.25) + l1),
                }
                for o in (kr, gp, bp):
                    nm = type(o).__name__
                    got = o.approx_log_likelihood(a, b, ln=plog, gammaln=math.lgamma)
                    ctx.eval(1, (hist, a, b, nm))
                    if not ref.close(got, want[nm], 1e-9, 1e-9 * (1 + abs(lx) + abs(l1) + n)):
                        ctx.fail(f"products:{nm}", f"{nm} after {hist}: log kernel {got} at {(a, b)} instead of {want[nm]}")
                    ctx.trace()
    ctx.sample(kind="products held as logarithms", depth=depth)


def exact_i0(x):
    """the modified Bessel function as a rational: sum of (x^2/4)^k / k!^2"""
    x = F(x)
    q, term, total, k = x * x / 4, Fraction(1), Fraction(1), 0
    scale = 10**40
    total, term = scale, scale
    while True:  # fixed point with forty digits
        k += 1
        term = term * q.numerator // (q.denominator * k * k)
        if term == 0:
            return Fraction(total, scale)
        total += term


def big_ln(x):
    x = F(x)
    n, d = x.numerator, x.denominator

    def lg(i):
        s = max(0, i.bit_length() - 60)
        return math.log(i >> s) + s * math.log(2)

    return lg(n) - lg(d)


def large(ctx):
    """concentrations whose Bessel function is no float, by replacements that know large numbers"""
    for kappa in (0.5, 3, 50, 699, 720, 1500, 5000):
        for mu, b in ((0.5, 1), (3, 0.25), (-2, 6)):
            with ctx.guard("large", f"kappa={kappa}"):
                e = kappa * math.cos(mu - b) - lni0(kappa)
                g = D.VonMisesKnownConcentration(a=kappa, b=b).log_likelihood(mu, cos=math.cos, ln=big_ln, i0=exact_i0)
                ctx.eval(2, (kappa, mu, b))
                ctx.state((kappa, mu, b))
                if not ref.close(g, e, 1e-9, 1e-9 * kappa):
                    ctx.fail("large:concentration", f"log_likelihood with a={kappa}, b={b} at {mu}: {g} instead of {e}")
                for c, r in ((1, 0.5), (30, 22.25)):
                    e2 = kappa * r - c * lni0(kappa)
                    g2 = D.VonMisesKnownDirectionProportional(c=c, r=r).approx_log_likelihood(kappa, ln=big_ln, i0=exact_i0)
                    if not ref.close(g2, e2, 1e-9, 1e-9 * kappa * c):
                        ctx.fail("large:direction", f"approx_log_likelihood with c={c}, r={r} at {kappa}: {g2} instead of {e2}")
                ctx.step()
    ctx.sample(kind="large concentrations")
