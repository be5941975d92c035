"""C22 Alternative constructors and conversions are consistent.

Constructors are compared with the moments, parameters and densities their names promise, over a grid of arguments in
every form. Conversions are edges of a graph over distributions: every walk up to a depth is taken on the real objects,
and the exact parameters (rationals) that the walk should arrive at are tracked alongside.
"""

import itertools
import math
from fractions import Fraction

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import ref

ID = "C22"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all walks over conversions and updates on the real objects with exact rational parameters tracked alongside; exhaustive argument grids for the constructors"
RULE = "distinct (constructor, arguments, form) and (start, walk over conversions) whose parameters, moments and density were compared with exact ones"
ASSUMPTIONS = [
    "square roots are compared with relative tolerance 1e-9",
    "8-bit and 16-bit numbers are left out (twice a shape does not fit)",
]
BOUNDS = {
    "quick": "grids of 6 to 11 values per argument in twelve forms; all walks over conversions and updates up to depth 6",
    "thorough": "all walks up to depth 9",
}

POS = [1, 2, 3, 7, 0.5, 0.01, 1.75, 20.25, 1e-4, 1e5, 4]
REALS = [0, 1, -3, 0.25, -1e4, 25.5]
MEANS = [0.5, 0.25, 0.01, 0.999, 0.1, 1 / 3, 1e-6]
COUNTS = [0, 1, 2, 10, 37, 1000, 10**6]

FORMS = {
    "python": lambda v: v,
    "float": float,
    "np scalar": lambda v: np.int64(v) if isinstance(v, int) else np.float64(v),
    "int32": lambda v: np.int32(v) if isinstance(v, int) else np.float64(v),
    "float32": lambda v: np.float32(v),
    "0-d": np.array,
    "vector": lambda v: np.array([v, v]),
    "grid": lambda v: np.array([[v], [v], [v]]),
    "one": lambda v: np.array([v]),
    "fraction": lambda v: Fraction(v),
    "series": lambda v: __import__("pandas").Series([v, v], index=["a", "b"]),
    "uint32": lambda v: np.uint32(v) if isinstance(v, int) and v >= 0 else np.float64(v),
}


CTORS = {}


def ctor(name, call, args, expected, moments=None):
    CTORS[name] = (call, args, expected, moments)


ctor("Beta.from_mean", (D.Beta, "from_mean"), {"mean": MEANS, "alpha": POS},
     lambda a: {"alpha": a["alpha"], "beta": a["alpha"] * (1 / a["mean"] - 1)},
     lambda a: {"mean": a["mean"]})
ctor("Beta.from_successes_and_failures", (D.Beta, "from_successes_and_failures"), {"successes": COUNTS + [0.5], "failures": COUNTS + [2.25]},
     lambda a: {"alpha": a["successes"] + 1, "beta": a["failures"] + 1},
     lambda a: {"mean": (a["successes"] + 1) / (a["successes"] + a["failures"] + 2)})
ctor("Beta.uninformative", (D.Beta, "uninformative"), {}, lambda a: {"alpha": 1, "beta": 1}, lambda a: {"mean": Fraction(1, 2), "var": Fraction(1, 12)})
ctor("Gamma.from_occurrences_in_intervals", (D.Gamma, "from_occurrences_in_intervals"), {"occurrences": POS, "intervals": POS},
     lambda a: {"alpha": a["occurrences"], "beta": a["intervals"]},
     lambda a: {"mean": a["occurrences"] / a["intervals"], "var": a["occurrences"] / a["intervals"] ** 2})
ctor("Normal.uninformative", (D.Normal, "uninformative"), {"sigma": POS}, lambda a: {"mu": 0, "sigma": a["sigma"]}, lambda a: {"mean": 0, "var": a["sigma"] ** 2})
ctor("Normal.uninformative()", (D.Normal, "uninformative"), {}, lambda a: {"mu": 0, "sigma": 1}, lambda a: {"mean": 0, "var": 1})
ctor("Normal.from_mean_and_variance", (D.Normal, "from_mean_and_variance"), {"mean": REALS, "variance": POS},
     lambda a: {"mu": a["mean"], "sigma": ("sqrt", a["variance"])}, lambda a: {"mean": a["mean"], "var": a["variance"]})
ctor("Normal.from_mean_and_precision", (D.Normal, "from_mean_and_precision"), {"mean": REALS, "precision": POS},
     lambda a: {"mu": a["mean"], "sigma": ("sqrt", 1 / a["precision"])}, lambda a: {"mean": a["mean"], "var": 1 / a["precision"]})


def value(e):
    if isinstance(e, tuple):
        return math.sqrt(e[1])
    return float(e)


def units(tier):
    out = [{"ctor": c, "form": f} for c in CTORS for f in FORMS]
    out += [{"dirichlet": 1}, {"exactly one": 1}, {"mixed": 1}, {"density": "chi2"}, {"density": "accessors"}]
    for g in WALKS:
        n = len(WALKS[g]["starts"])
        out += [{"walk": g, "start": i} for i in range(n)]
    return out


def run(unit, ctx):
    if "ctor" in unit:
        constructors(unit["ctor"], unit["form"], ctx)
    elif "walk" in unit:
        walk(unit["walk"], unit["start"], ctx)
    elif "dirichlet" in unit:
        dirichlet(ctx)
    elif "exactly one" in unit:
        exactly_one(ctx)
    elif "mixed" in unit:
        mixed(ctx)
    elif unit["density"] == "chi2":
        chi2_density(ctx)
    else:
        accessors(ctx)


def check_values(name, got, want, shape, ctx, what, rtol):
    g = np.asarray(got, float)
    if shape is not None and g.shape != shape and g.size != int(np.prod(shape)):
        ctx.fail(f"{name}:shape", f"{what}: shape {g.shape} instead of {shape}")
        return
    ok = np.all(np.abs(g - want) <= rtol * abs(want) + 1e-300) if want or rtol == 0 else np.all(g == 0)
    if not ok:
        ctx.fail(f"{name}:value", f"{what}: {got!r} instead of {want!r}")


def bound(obj, k):
    """a plotting bound, None if it is not set"""
    try:
        return getattr(obj, k, None)
    except ValueError:
        return None


def constructors(name, form, ctx):
    (cls, method), args, expected, moments = CTORS[name]
    sub = type(f"My{cls.__name__}", (cls,), {})
    conv = FORMS[form]
    for vals in itertools.product(*args.values()):
        a = dict(zip(args, vals))
        # one minus a mean near one loses digits in single precision
        rtol = 1e-9 if form != "float32" else 1e-6 / (1 - a.get("mean", 0) if name == "Beta.from_mean" else 1)
        given = {k: conv(v) for k, v in a.items()}
        exact = {k: Fraction(float(v) if not isinstance(v, int) else v) if form != "float32" else Fraction(float(np.float32(v))) for k, v in a.items()}
        before = {k: np.array(v, copy=True) for k, v in given.items()}
        shape = np.shape(next(iter(given.values()))) if given else ()
        exp = expected(exact)
        for style in ("keywords", "positions", "subclass"):
            what = f"{name}({', '.join(f'{k}={v!r}' for k, v in given.items())}) [{style}]"
            with ctx.guard(f"{name}:{style}", what):
                fn = getattr(sub if style == "subclass" else cls, method)
                obj = fn(*given.values()) if style == "positions" else fn(**given)
                ctx.eval(1, (name, vals, form, style))
                ctx.state((name, vals, form))
                if not isinstance(obj, cls):
                    ctx.fail(f"{name}:type", f"{what}: {type(obj).__name__}")
                    continue
                for k, e in exp.items():
                    check_values(f"{name}:{k}", getattr(obj, k), value(e), None, ctx, f"{what}: {k}", rtol)
                for k, v in before.items():
                    if not np.array_equal(v, given[k]):
                        ctx.fail(f"{name}:argument-changed", f"{what}: changed its argument {k}")
                if style == "keywords" and form != "fraction" and moments:
                    d = obj.dist
                    for k, e in moments(exact).items():
                        check_values(f"{name}:dist.{k}", getattr(d, k)(), value(e), None, ctx, f"{what}: {k} of the distribution", max(rtol, 1e-7))
                    direct = cls(**{k: getattr(obj, k) for k in exp})
                    for k in ("min_value", "max_value"):
                        b, e = bound(obj, k), bound(direct, k)
                        if b != e:
                            ctx.fail(f"{name}:bounds", f"{what}: {k} {b} instead of {e}")
                if style == "positions" and form == "vector":
                    for k, e in exp.items():
                        if given and np.size(getattr(obj, k)) not in (1, 2):
                            ctx.fail(f"{name}:shape", f"{what}: {k} has shape {np.shape(getattr(obj, k))}")
    ctx.sample(constructor=name, form=form, arguments=list(args))


def mixed(ctx):
    """arguments of different shapes broadcast against each other, element by element"""
    vec = {"row": lambda v: np.array(v)[None, :], "column": lambda v: np.array(v)[:, None], "vector": np.array, "scalar": lambda v: v[0]}
    for name, ((cls, method), args, expected, moments) in CTORS.items():
        if not args:
            continue
        for combo in itertools.product(vec, repeat=len(args)):
            vals = {k: v[:4] for k, v in args.items()}
            given = {k: vec[f](vals[k]) for f, k in zip(combo, args)}
            what = f"{name} of {dict(zip(args, combo))}"
            with ctx.guard(f"{name}:mixed", what):
                obj = getattr(cls, method)(**given)
                full = np.broadcast_arrays(*given.values())
                ctx.state((name, combo))
                for i in np.ndindex(full[0].shape):
                    exact = {k: Fraction(float(f[i])) for k, f in zip(args, full)}
                    for k, e in expected(exact).items():
                        got = np.broadcast_to(np.asarray(getattr(obj, k), float), full[0].shape)[i]
                        check_values(f"{name}:mixed:{k}", got, value(e), None, ctx, f"{what}: {k} at {i}", 1e-9)
                        ctx.eval(1, (name, combo, i, k))
                    for k, e in moments(exact).items():
                        got = np.broadcast_to(np.asarray(getattr(obj.dist, k)(), float), full[0].shape)[i]
                        check_values(f"{name}:mixed:dist.{k}", got, value(e), None, ctx, f"{what}: {k} at {i}", 1e-7)


def dirichlet(ctx):
    for n in [1, 2, 3, 4, 7, 20, np.int64(3), np.int32(5)]:
        for style in ("keyword", "position", "subclass", "again"):
            with ctx.guard("Dirichlet.uninformative", f"Dirichlet.uninformative({n!r})"):
                c = type("My", (D.Dirichlet,), {}) if style == "subclass" else D.Dirichlet
                obj = c.uninformative(n) if style == "position" else c.uninformative(n=n)
                ctx.state((int(n), style))
                ctx.eval(1, (int(n), style))
                alpha = np.asarray(obj.alpha, float)
                if alpha.shape != (n,) or not np.all(alpha == 1) or not isinstance(obj, D.Dirichlet):
                    ctx.fail("Dirichlet.uninformative", f"Dirichlet.uninformative({n}) [{style}]: {obj!r}")
                    continue
                if n > 1 and not ref.allclose(obj.dist.mean(), np.full(n, 1 / n)):
                    ctx.fail("Dirichlet.uninformative:mean", f"Dirichlet.uninformative({n}).dist.mean() = {obj.dist.mean()}")
                if n > 1:
                    flat = {round(float(obj.dist.pdf(p)), 6) for p in ([1 / n] * n, [0.5] + [0.5 / (n - 1)] * (n - 1))}
                    if flat != {round(math.gamma(n), 6)} and n < 10:
                        ctx.fail("Dirichlet.uninformative:flat", f"the density of Dirichlet.uninformative({n}) is not constant: {flat}")
                try:
                    obj.alpha[:] = 7.0  # what a user does with one result must not change the next one
                except (TypeError, ValueError):
                    pass


def exactly_one(ctx):
    """a normal inverse gamma is given exactly one of its two precision forms"""
    ig = D.InverseGamma(alpha=2, beta=3)
    deltas = [None, np.eye(2), np.zeros((2, 2)), np.array([[1.0]]), [[1.0, 0.0], [0.0, 2.0]], 0.0, 2.0]
    nus = [None, 0, 0.0, 1, 2.5, np.float64(3), np.array([1.0, 2.0]), np.array([0.0, 0.0]), np.array(0)]
    makers = {
        "NormalInverseGamma": lambda **kw: D.NormalInverseGamma(mu=0, alpha=2, beta=3, **kw),
        "NormalInverseGamma by position": lambda delta_inverse=None, nu=None: D.NormalInverseGamma(0, 2, 3, delta_inverse, nu),
        "NormalInverseGamma.from_inverse_gamma": lambda **kw: D.NormalInverseGamma.from_inverse_gamma(mu=0, inverse_gamma=ig, **kw),
        "NormalInverseGamma.from_inverse_gamma by position": lambda delta_inverse=None, nu=None: D.NormalInverseGamma.from_inverse_gamma(0, ig, delta_inverse, nu),
        "subclass": lambda **kw: type("My", (D.NormalInverseGamma,), {}).from_inverse_gamma(mu=0, inverse_gamma=ig, **kw),
    }
    for label, make in makers.items():
        for (i, d), (j, n) in itertools.product(enumerate(deltas), enumerate(nus)):
            kw = {}
            if d is not None:
                kw["delta_inverse"] = d
            if n is not None:
                kw["nu"] = n
            for explicit in (False, True):
                given = {"delta_inverse": d, "nu": n} if explicit else kw
                what = f"{label} with {given}"
                ctx.eval(1, (label, i, j, explicit))
                ctx.state((label, i, j, explicit))
                should = (d is None) == (n is None)
                try:
                    obj = make(**given)
                except ValueError as e:
                    if not should:
                        ctx.fail(f"exactly-one:rejected:{label}", f"{what} was rejected: {e}")
                    continue
                except Exception as e:
                    ctx.fail(f"exactly-one:error:{label}", f"{what} raised {type(e).__name__}: {e}")
                    continue
                if should:
                    ctx.fail(f"exactly-one:accepted:{label}", f"{what} was accepted: {obj!r}")
                    continue
                same = obj.mu == 0 and obj.alpha == 2 and obj.beta == 3
                same = same and (obj.delta_inverse is None) == (d is None) and (obj.nu is None) == (n is None)
                same = same and (d is None or np.array_equal(obj.delta_inverse, d)) and (n is None or np.array_equal(obj.nu, n))
                if not same:
                    ctx.fail(f"exactly-one:fields:{label}", f"{what} became {obj!r}")


CHI_GRID = list(itertools.product([1, 2, 3, 0.5, 7.25, 100], [1, 2, 0.25, 30, 0.01]))
XS = [0.001, 0.02, 0.3, 1, 2.5, 30, 400]


def chi2_density(ctx):
    """all three ways to write an inverse gamma variance have the same law"""
    shapes = {"scalar": lambda v: v, "array": lambda v: np.array([v]), "np": np.float64}
    for (nu, s2), (form, f) in itertools.product(CHI_GRID, shapes.items()):
        with ctx.guard("chi2:density", f"nu={nu}, sigma2={s2} [{form}]"):
            chi = D.ScaledInverseChiSquared(nu=f(nu), sigma2=f(s2))
            ig = chi.to_inverse_gamma()
            back = D.ScaledInverseChiSquared.from_inverse_gamma(ig)
            direct = D.InverseGamma(alpha=f(nu / 2), beta=f(nu * s2 / 2))
            ctx.state((nu, s2, form))
            for tag, obj in (("scaled inverse chi squared", chi), ("to_inverse_gamma", ig), ("round trip", back), ("inverse gamma", direct),
                             ("from_inverse_gamma", D.ScaledInverseChiSquared.from_inverse_gamma(direct))):
                d = obj.dist
                for x in XS:
                    e = ref.scaled_inv_chi2(x, nu, s2)
                    g = float(np.squeeze(d.logpdf(x)))
                    ctx.eval(1, (nu, s2, form, tag, x))
                    if not ref.close(g, e, 1e-8, 1e-9):
                        ctx.fail(f"chi2:density:{tag}", f"{tag} of nu={nu}, sigma2={s2} [{form}]: log density {g} at {x} instead of {e}")
                if nu > 2.5:
                    e = nu * s2 / (nu - 2)
                    if not ref.close(float(np.squeeze(d.mean())), e, 1e-8):
                        ctx.fail(f"chi2:mean:{tag}", f"{tag} of nu={nu}, sigma2={s2} [{form}]: mean {d.mean()} instead of {e}")
    # vectors element by element
    nu = np.array([c[0] for c in CHI_GRID], float)
    s2 = np.array([c[1] for c in CHI_GRID], float)
    with ctx.guard("chi2:vector", "vectors"):
        ig = D.ScaledInverseChiSquared(nu=nu, sigma2=s2).to_inverse_gamma()
        back = D.ScaledInverseChiSquared.from_inverse_gamma(ig)
        if not (ref.allclose(ig.alpha, nu / 2) and ref.allclose(ig.beta, nu * s2 / 2) and ref.allclose(back.nu, nu) and ref.allclose(back.sigma2, s2)):
            ctx.fail("chi2:vector", f"conversion of vectors: {ig!r}, {back!r}")


def accessors(ctx):
    """the marginal of the variance or precision that a joint prior gives out has the law of its part"""
    PSI = {1: [[2.0]], 2: [[2, 0.75], [0.75, 0.5]], 3: [[2, 0.5, -0.25], [0.5, 1, 0.25], [-0.25, 0.25, 3]]}
    for a, b in itertools.product([0.5, 1, 3, 20.25], [0.25, 1, 2, 12]):
        with ctx.guard("accessor:gamma", f"alpha={a}, beta={b}"):
            g = D.NormalGamma(mu=3, lam=7, alpha=a, beta=b).gamma
            v = D.NormalInverseGamma(mu=3, nu=7, alpha=a, beta=b).inverse_gamma
            w = D.NormalInverseGamma(mu=np.zeros(2), delta_inverse=np.eye(2) * 5, alpha=a, beta=b).inverse_gamma
            ctx.state((a, b))
            for x in XS:
                ctx.eval(3, (a, b, x))
                for tag, obj, e in (("NormalGamma.gamma", g, ref.gamma(x, a, b)), ("NormalInverseGamma.inverse_gamma", v, ref.inverse_gamma(x, a, b)),
                                    ("NormalInverseGamma.inverse_gamma (regression)", w, ref.inverse_gamma(x, a, b))):
                    if not ref.close(float(obj.dist.logpdf(x)), e, 1e-8, 1e-9):
                        ctx.fail(f"accessor:{tag}", f"{tag} of alpha={a}, beta={b}: log density {obj.dist.logpdf(x)} at {x} instead of {e}")
    for d, extra in itertools.product((1, 2, 3), (0, 0.5, 1, 10)):
        nu, psi = d + extra, np.array(PSI[d], float)
        with ctx.guard("accessor:wishart", f"d={d}, nu={nu}"):
            iw = D.InverseWishart(nu=nu, psi=psi)
            niw = D.NormalInverseWishart(mu=np.zeros(d), kappa=7, nu=nu, psi=psi)
            made = D.NormalInverseWishart.from_inverse_wishart(mu=np.arange(d), kappa=3, inverse_wishart=iw)
            placed = D.NormalInverseWishart.from_inverse_wishart(np.arange(d), 3, iw)
            sub = type("My", (D.NormalInverseWishart,), {}).from_inverse_wishart(np.arange(d), 3, iw)
            wis = D.NormalWishart(mu=np.zeros(d), lam=7, W=psi, nu=nu).wishart
            ctx.state((d, nu))
            for m in (made, placed, sub):
                if not (isinstance(m, D.NormalInverseWishart) and np.array_equal(m.mu, np.arange(d)) and m.kappa == 3 and m.nu == nu and np.array_equal(m.psi, psi)):
                    ctx.fail("from_inverse_wishart", f"from_inverse_wishart(mu, 3, {iw!r}) = {m!r}")
            for k in range(4):
                X = np.array(PSI[d], float) + np.eye(d) * (0.5 + k)
                Xi = np.linalg.inv(X)
                e = ref.inverse_wishart(X, nu, psi)
                # X ~ W(nu, V) iff X^-1 ~ IW(nu, V^-1); the Jacobian of the inverse is det(X)^-(d+1)
                ew = ref.inverse_wishart(Xi, nu, np.linalg.inv(psi)) - (d + 1) * np.linalg.slogdet(X)[1]
                ctx.eval(4, (d, nu, k))
                for tag, obj, want in (("InverseWishart", iw, e), ("NormalInverseWishart.inverse_wishart", niw.inverse_wishart, e),
                                       ("from_inverse_wishart().inverse_wishart", made.inverse_wishart, e), ("NormalWishart.wishart", wis, ew)):
                    if not ref.close(float(obj.dist.logpdf(X)), want, 1e-8, 1e-8):
                        ctx.fail(f"accessor:{tag}", f"{tag} with d={d}, nu={nu}: log density {obj.dist.logpdf(X)} instead of {want}")


# -- walks over conversions ------------------------------------------------------------------------
# A node is (kind, exact parameters); an edge is a call on the real object with its effect on the exact parameters.


def ig_of(p):
    return {"alpha": p["alpha"], "beta": p["beta"]}


def upd(p, x, mu):
    """one observation of a normal with a known mean"""
    return {"alpha": p["alpha"] + Fraction(1, 2), "beta": p["beta"] + (Fraction(x) - Fraction(mu)) ** 2 / 2}


class Edge:
    def __init__(self, name, src, dst, call, effect=lambda p: p):
        self.name, self.src, self.dst, self.call, self.effect = name, src, dst, call, effect


def read(kind, obj):
    """the parameters that all nodes of a graph share"""
    if kind == "chi2":
        return {"alpha": obj.nu * 0.5, "beta": obj.nu * obj.sigma2 * 0.5}
    if kind in ("ig", "gamma"):
        return {"alpha": obj.alpha, "beta": obj.beta}
    if kind in ("nig", "ng", "nigd"):
        return {"alpha": obj.alpha, "beta": obj.beta}
    if kind == "normal":
        return {"mean": obj.mu, "var": obj.sigma**2}
    if kind == "beta":
        return {"alpha": obj.alpha, "beta": obj.beta}
    if kind in ("iw", "niw"):
        return {"nu": obj.nu, **{f"psi{i}{j}": obj.psi[i, j] for i in range(2) for j in range(2)}}
    raise KeyError(kind)


def det(name):
    return lambda o: getattr(o, name)


EYE = np.eye(2)
WALKS = {
    "variance": {
        "starts": [("chi2", D.ScaledInverseChiSquared, {"nu": n, "sigma2": s}) for n, s in ((1, 1), (3, 0.25), (7.5, 30), (2, 1e-3), (np.array([1, 4]), np.array([2, 0.5])), (0.1, 3))]
        + [("ig", D.InverseGamma, {"alpha": a, "beta": b}) for a, b in ((1, 1), (0.5, 3), (20.25, 0.125), (3, 7), (np.array([1, 3]), np.array([2.5, 4])))],
        "edges": [
            Edge("to_inverse_gamma", "chi2", "ig", lambda o: o.to_inverse_gamma()),
            Edge("from_inverse_gamma", "ig", "chi2", lambda o: D.ScaledInverseChiSquared.from_inverse_gamma(o)),
            Edge("NormalInverseGamma.from_inverse_gamma(nu)", "ig", "nig", lambda o: D.NormalInverseGamma.from_inverse_gamma(mu=1, inverse_gamma=o, nu=2)),
            Edge("NormalInverseGamma.from_inverse_gamma(delta_inverse)", "ig", "nigd", lambda o: D.NormalInverseGamma.from_inverse_gamma(mu=np.zeros(2), inverse_gamma=o, delta_inverse=EYE)),
            Edge("inverse_gamma", "nig", "ig", det("inverse_gamma")),
            Edge("inverse_gamma", "nigd", "ig", det("inverse_gamma")),
            Edge("normal_known_mean on chi2", "chi2", "chi2", lambda o: M.normal_known_mean(x_total=3, x2_total=9, n=1, mu=1, prior=o), lambda p: upd(p, 3, 1)),
            Edge("normal_known_mean", "ig", "ig", lambda o: M.normal_known_mean(x_total=3, x2_total=9, n=1, mu=1, prior=o), lambda p: upd(p, 3, 1)),
        ],
    },
    "beta": {
        "starts": [("beta", D.Beta, {"alpha": a, "beta": b}) for a, b in ((1, 1), (0.5, 3), (20.25, 0.125), (3, 7), (np.array([1, 3]), np.array([2.5, 4])))],
        "edges": [
            Edge("from_mean", "beta", "beta", lambda o: D.Beta.from_mean(mean=o.dist.mean(), alpha=o.alpha)),
            Edge("from_mean of the mirror", "beta", "beta", lambda o: D.Beta.from_mean(mean=1 - o.dist.mean(), alpha=o.beta), lambda p: {"alpha": p["beta"], "beta": p["alpha"]}),
            Edge("from_successes_and_failures", "beta", "beta", lambda o: D.Beta.from_successes_and_failures(o.alpha - 1, o.beta - 1)),
            Edge("binomial_beta", "beta", "beta", lambda o: M.binomial_beta(n=5, x=2, prior=o), lambda p: {"alpha": p["alpha"] + 2, "beta": p["beta"] + 3}),
        ],
    },
    "normal": {
        "starts": [("normal", D.Normal, {"mu": m, "sigma": s}) for m, s in ((0, 1), (-3.5, 2), (1e3, 0.125), (2, np.array([1, 3])), (np.array([0, 1]), np.array([2.5, 4])))],
        "edges": [
            Edge("from_mean_and_variance", "normal", "normal", lambda o: D.Normal.from_mean_and_variance(mean=o.mu, variance=o.sigma**2)),
            Edge("from_mean_and_precision", "normal", "normal", lambda o: D.Normal.from_mean_and_precision(mean=o.mu, precision=1 / o.sigma**2)),
            Edge("variance from the distribution", "normal", "normal", lambda o: D.Normal.from_mean_and_variance(o.dist.mean(), o.dist.var())),
            Edge("normal_known_variance", "normal", "normal", lambda o: M.normal_known_variance(x_total=3, n=2, var=4, prior=o),
                 lambda p: {"mean": (p["mean"] / p["var"] + Fraction(3, 4)) / (1 / p["var"] + Fraction(1, 2)), "var": 1 / (1 / p["var"] + Fraction(1, 2))}),
        ],
    },
    "gamma": {
        "starts": [("gamma", D.Gamma, {"alpha": a, "beta": b}) for a, b in ((1, 1), (0.5, 3), (20.25, 0.125), (np.array([1, 3]), np.array([2.5, 4])))],
        "edges": [
            Edge("from_occurrences_in_intervals", "gamma", "gamma", lambda o: D.Gamma.from_occurrences_in_intervals(o.alpha, o.beta)),
            Edge("from_occurrences_in_intervals of the moments", "gamma", "gamma",
                 lambda o: D.Gamma.from_occurrences_in_intervals(occurrences=o.dist.mean() ** 2 / o.dist.var(), intervals=o.dist.mean() / o.dist.var())),
            Edge("NormalGamma", "gamma", "ng", lambda o: D.NormalGamma(mu=1, lam=2, alpha=o.alpha, beta=o.beta)),
            Edge("gamma", "ng", "gamma", det("gamma")),
            Edge("poisson_gamma", "gamma", "gamma", lambda o: M.poisson_gamma(x_total=5, n=2, prior=o), lambda p: {"alpha": p["alpha"] + 5, "beta": p["beta"] + 2}),
        ],
    },
    "wishart": {
        "starts": [("iw", D.InverseWishart, {"nu": n, "psi": np.array(m)}) for n, m in ((2, [[1, 0], [0, 1]]), (3.5, [[2, 0.75], [0.75, 0.5]]), (20, [[4, -1], [-1, 3]]))],
        "edges": [
            Edge("from_inverse_wishart", "iw", "niw", lambda o: D.NormalInverseWishart.from_inverse_wishart(mu=np.zeros(2), kappa=3, inverse_wishart=o)),
            Edge("inverse_wishart", "niw", "iw", det("inverse_wishart")),
            Edge("multivariate_normal_known_mean", "iw", "iw", lambda o: M.multivariate_normal_known_mean(X=np.array([[1.0, 3.0]]), mu=np.array([0.5, 1]), prior=o),
                 lambda p: {"nu": p["nu"] + 1, "psi00": p["psi00"] + Fraction(1, 4), "psi01": p["psi01"] + 1, "psi10": p["psi10"] + 1, "psi11": p["psi11"] + 4}),
            Edge("multivariate_normal of no rows", "niw", "niw", lambda o: M.multivariate_normal(X=np.zeros((0, 2)), prior=o)),
        ],
    },
}


def lanes_of(kind, obj):
    got = read(kind, obj)
    return {k: np.atleast_1d(np.asarray(v, float)) for k, v in got.items()}


def exact_start(kind, fields):
    size = max(np.size(v) if np.ndim(v) == 1 else 1 for v in fields.values())
    out = []
    for i in range(size):
        f = {k: Fraction(float(v[i])) if np.ndim(v) == 1 else (Fraction(float(v)) if np.ndim(v) == 0 else v) for k, v in fields.items()}
        if kind == "chi2":
            out.append({"alpha": f["nu"] / 2, "beta": f["nu"] * f["sigma2"] / 2})
        elif kind == "normal":
            out.append({"mean": f["mu"], "var": f["sigma"] ** 2})
        elif kind == "iw":
            out.append({"nu": f["nu"], **{f"psi{i}{j}": Fraction(float(f["psi"][i, j])) for i in range(2) for j in range(2)}})
        else:
            out.append(f)
    return out


def walk(graph, start, ctx):
    g = WALKS[graph]
    kind, cls, fields = g["starts"][start]
    depth = 6 if ctx.tier == "quick" else 9
    label = f"{cls.__name__}({', '.join(f'{k}={v!r}' for k, v in fields.items())})"
    root = cls(**fields)
    front = [(kind, root, exact_start(kind, fields), ())]
    merged = set()
    for level in range(depth + 1):
        nxt = []
        for kind, obj, exact, path in front:
            ctx.eval(1, (graph, start, path))
            ctx.state((graph, start, path))
            with ctx.guard(f"walk:{graph}", f"{label} after {list(path)}"):
                got = lanes_of(kind, obj)
                bad = None
                for k in got:
                    want = np.array([float(e[k]) for e in exact])
                    v = np.broadcast_to(got[k], want.shape)
                    if not ref.allclose(v, want, 1e-9, 1e-9 if k == "mean" else 0):
                        bad = f"{k} = {got[k]} instead of {want}"
                if bad:
                    ctx.fail(f"walk:{graph}:{path[-1] if path else 'start'}", f"{label} after {list(path)}: {bad}", result=obj)
                    continue
                ctx.trace()
                if level == depth:
                    continue
                for e in g["edges"]:
                    if e.src != kind:
                        continue
                    with ctx.guard(f"walk:{graph}:{e.name}", f"{label} after {[*path, e.name]}"):
                        out = e.call(obj)
                        ctx.step()
                        after = [e.effect(p) for p in exact]
                        # walks that differ only in conversions meet; keep each meeting point a few times
                        key = (e.dst, e.name, path[-2:], tuple(tuple(sorted((k, v) for k, v in p.items())) for p in after))
                        if level > 3 and key in merged:
                            continue
                        merged.add(key)
                        nxt.append((e.dst, out, after, (*path, e.name)))
        front = nxt
    ctx.sample(graph=graph, start=label, depth=depth, last_walk=front[-1][3] if front else None)
