"""C06 predictive distributions are the averaged likelihood."""

import itertools
import math

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import lattice as L
from mc import mvspec as V
from mc import ref
from mc.predspec import P

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of predictive calls and outcomes against exact averaged likelihoods"
RULE = (
    "case = (predictive function, distribution parameters, known parameter or window, outcome), enumerated as full products; "
    "non-trivial = the outcome has positive probability (the rest are outcomes off the support). Density from dist of the "
    "result against the closed form of the averaged likelihood; closed forms themselves against numerical averaging of the "
    "likelihood over the prior; totals over the support"
)
ASSUMPTIONS = [
    "closed forms are checked against trapezoid averaging on 4000 nodes for parameters between 0.5 and 400",
    "scipy's own densities are accurate to 1e-7 relative",
]
BOUNDS = {
    "quick": "10 x 10 shape grids x 3-12 known parameters x 7-12 outcomes per function; 8 representations of one or all parameters; matrices up to dimension 3",
    "thorough": "same products, denser averaging, matrices up to dimension 5",
}


def units(tier):
    out = []
    for nm, p in P.items():
        n = len(p.fields)
        for c in L.chunks(range(n), 16):
            out.append({"kind": "closed", "model": nm, "fields": c})
        out.append({"kind": "types", "model": nm})
        if p.prior:
            out.append({"kind": "average", "model": nm, "tier": tier})
    for nm in ("linear_regression", "multivariate_normal_known_covariance", "multivariate_normal_known_precision", "multivariate_normal"):
        for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            out.append({"kind": "matrix", "model": nm, "d": d})
    return out


def run(u, ctx):
    {"closed": run_closed, "types": run_types, "average": run_average, "matrix": run_matrix}[u["kind"]](u, ctx)


def density(dist, x, discrete):
    return dist.pmf(x) if discrete else dist.pdf(x)


def tol(lp):
    return 1e-7 * max(1.0, abs(lp) * 1e-2)


def agrees(got, lp):
    """got: a density; lp: exact log density"""
    got = float(got)
    want = math.exp(lp) if lp < 700 else math.inf
    if lp == ref.NINF or want < 1e-290:
        return 0 <= got < 1e-280
    if want == math.inf:
        return got > 1e300
    return ref.close(got, want, tol(lp), atol=0)


def run_closed(u, ctx):
    p = P[u["model"]]
    fn = getattr(M, p.fn)
    for i in u["fields"]:
        f = p.fields[i]
        for k in p.known:
            pts = p.outcomes(f, k)
            info = dict(function=p.fn, fields=f, known=k)
            with ctx.guard(p.name, **info):
                res = fn(distribution=p.cls(**f), **k)
                if type(res) is not p.out:
                    ctx.fail(f"{p.name}:type", f"{p.fn} returned {type(res).__name__} instead of {p.out.__name__}", **info)
                    continue
                dist = res.dist
                lps = [p.log(x, f, k) for x in pts]
                for x, lp in zip(pts, lps):
                    ctx.eval(1, key=(p.name, i, str(k), x) if lp > ref.NINF else None)
                    got = density(dist, np.array(x) if isinstance(x, tuple) else x, p.discrete)
                    if np.size(got) != 1 or not agrees(np.reshape(got, ()), lp):
                        ctx.fail(f"{p.name}:density", f"{p.fn}: density {got!r} of outcome {x}, averaged likelihood {math.exp(min(lp, 700))!r}", outcome=x, **info)
                if p.out is not D.DirichletMultinomial:
                    got = density(dist, np.array(pts, float), p.discrete)
                    if np.shape(got) != (len(pts),) or not all(agrees(g, lp) for g, lp in zip(got, lps)):
                        ctx.fail(f"{p.name}:density array", f"{p.fn}: densities {got!r} of outcomes {pts}", **info)
                t = p.total(f, k) if p.total else None
                if t:
                    s = float(np.sum(dist.pmf(np.arange(t[0], t[1] + 1))))
                    if not ref.close(s, 1, 1e-6):
                        ctx.fail(f"{p.name}:total", f"{p.fn}: probabilities sum to {s!r}", **info)
                if p.out is D.DirichletMultinomial:
                    s = math.fsum(float(dist.pmf(np.array(x))) for x in pts[:-1])
                    if not ref.close(s, 1, 1e-8):
                        ctx.fail(f"{p.name}:total", f"{p.fn}: probabilities sum to {s!r}", **info)
        ctx.sample(function=p.fn, fields=f, known=k, outcomes=pts)


REPS = {
    "int": int,
    "float": float,
    "float64": np.float64,
    "int64": np.int64,
    "int32": np.int32,
    "float32": np.float32,
    "0-d array": np.array,
    "1-element array": lambda v: np.array([v]),
}


def run_types(u, ctx):
    """the same density for every representation of one or all of the parameters"""
    p = P[u["model"]]
    if p.out is D.DirichletMultinomial:
        return run_types_dirichlet(p, ctx)
    fn = getattr(M, p.fn)
    exact = lambda v: isinstance(v, (bool, np.bool_)) or v == int(v)
    fields = [f for f in p.fields if all(0.5 <= abs(v) <= 400 or v == 0 for v in f.values())]
    fields = fields[:: max(1, len(fields) // 12)]
    names = [("field", n) for n in fields[0]] + [("known", n) for n in p.known[-1] if n != "one_start"]
    for f, k in itertools.product(fields, p.known):
        if any(not exact(v) and abs(v) < 0.2 or abs(v) > 1e5 for v in k.values()):
            continue
        pts = [x for x in p.outcomes(f, k) if p.log(x, f, k) > -200][:3]
        here = [n for n in names if n[0] == "field" or n[1] in k]
        for (rep, g), which in itertools.product(REPS.items(), [[n] for n in here] + [here]):
            val = lambda where, n: (f if where == "field" else k)[n]
            if "int" in rep and any(not exact(val(*n)) for n in which) or "1-" in rep and len(here) > 3:
                continue
            ff = {n: g(v) if ("field", n) in which else v for n, v in f.items()}
            kk = {n: g(v) if ("known", n) in which else v for n, v in k.items()}
            info = dict(function=p.fn, fields=f, known=k, representation=rep, of=which)
            with ctx.guard(f"{p.name}:types", **info):
                dist = fn(distribution=p.cls(**ff), **kk).dist
                for x in pts:
                    ctx.eval(1, key=(p.name, str(f), str(k), x, rep, str(which)))
                    got = density(dist, x, p.discrete)
                    want = math.exp(p.log(x, f, k))
                    rtol = 2e-3 if rep == "float32" else tol(p.log(x, f, k))
                    if np.size(got) != 1 or not ref.close(float(np.reshape(got, ())), want, rtol, atol=1e-300):
                        ctx.fail(f"{p.name}:types", f"{p.fn}: density {got!r} of outcome {x}, averaged likelihood {want!r}", outcome=x, **info)
                        break
    ctx.sample(**info)


def run_types_dirichlet(p, ctx):
    forms = {
        "list": list, "tuple": tuple, "int array": np.array, "float array": lambda a: np.array(a, float),
        "int32 array": lambda a: np.array(a, np.int32), "float32 array": lambda a: np.array(a, np.float32), "view": lambda a: np.repeat(a, 2)[::2],
    }  # fmt: skip
    fn = getattr(M, p.fn)
    for alpha, n, (form, g), rep in itertools.product(([1, 1], [3, 1, 2], [40, 2, 5, 1]), (1, 2, 7, 30), forms.items(), ("int", "float", "float64", "int64", "int32", "0-d array")):
        x = [0] * len(alpha)
        x[0], x[-1] = n - n // 2, n // 2
        lp = ref.dirichlet_multinomial(x, [float(a) for a in alpha])
        info = dict(function=p.fn, alpha=alpha, n=n, form=form, representation=rep)
        with ctx.guard(f"{p.name}:types", **info):
            ctx.eval(1, key=(p.name, str(alpha), n, form, rep))
            got = fn(distribution=D.Dirichlet(alpha=g(alpha)), n=REPS[rep](n)).dist.pmf(np.array(x))
            if np.size(got) != 1 or not ref.close(float(np.reshape(got, ())), math.exp(lp), 1e-4 if "float32" in form else 1e-8):
                ctx.fail(f"{p.name}:types", f"{p.fn}: probability {got!r} of {x}, averaged likelihood {math.exp(lp)!r}", outcome=x, **info)
    ctx.sample(**info)


def nodes(kind, n):
    """(theta, d theta / d u) on a uniform grid of an unbounded variable, where the trapezoid rule converges fast"""
    u = np.linspace(-1, 1, n)
    if kind == "unit":
        s = u * 120
        out = []
        for v in s:
            e = math.exp(-abs(v))
            t = 1 / (1 + e) if v > 0 else e / (1 + e)
            out.append((t, e / (1 + e) ** 2))
        return out, 240 / (n - 1)
    if kind == "positive":
        s = u * 160
        return [(math.exp(v), math.exp(v)) for v in s], 320 / (n - 1)
    s = u * 9.5
    return [(math.sinh(v), math.cosh(v)) for v in s], 19 / (n - 1)


def run_average(u, ctx):
    p = P[u["model"]]
    kind, logprior = p.prior
    n = 4001 if u["tier"] == "quick" else 12001
    th, h = nodes(kind, n)
    fields = [f for f in p.fields if all(0.5 <= abs(float(v)) <= 30 or v == 0 for v in f.values())]
    fields = fields[:: max(1, len(fields) // (16 if u["tier"] == "quick" else 400))]
    fn = getattr(M, p.fn)
    for f in fields:
        lp = [logprior(t, f) for t, _ in th]
        for k in p.known:
            if any(isinstance(v, (int, float)) and not isinstance(v, bool) and (abs(v) > 60 or 0 < abs(v) < 0.01) for v in k.values()):
                continue
            if k.get("var", 1) < 0.2 or k.get("precision", 1) > 5:
                continue  # narrower than the nodes
            kk = dict(k)
            if "_lam" not in kk and p.name.startswith("normal") and "mu" in f and "sigma" not in f:
                kk.update(_mu=f["mu"], _lam=f.get("nu", f.get("lam")))
            pts = [x for x in p.outcomes(f, k) if p.log(x, f, k) > ref.NINF and (abs(x) > 0.01 or x == 0 and p.discrete) and abs(x) < 100][:6]
            info = dict(function=p.fn, fields=f, known=k)
            with ctx.guard(f"{p.name}:average", **info):
                dist = fn(distribution=p.cls(**f), **k).dist
                for x in pts:
                    s = 0.0
                    for (t, j), a in zip(th, lp):
                        if a < -690 or j == 0 or kind == "unit" and t in (0.0, 1.0):
                            continue
                        b = p.lik(x, t, kk)
                        if b > -740:
                            s += math.exp(min(a + b, 700)) * j
                    s *= h
                    got = float(density(dist, x, p.discrete))
                    ctx.eval(1, key=(p.name, str(f), str(k), x))
                    if not ref.close(got, s, 1e-5, atol=1e-13):
                        ctx.fail(f"{p.name}:average", f"{p.fn}: density {got!r} at {x}, averaged likelihood {s!r}", outcome=x, **info)
    ctx.sample(function=p.fn, fields=f, known=k, nodes=n)


def run_matrix(u, ctx):
    from mc.checks.c03 import big_known, big_prior

    s, d = V.MV[u["model"]], u["d"]
    priors = s.priors(d) if d <= 3 else [big_prior(s, d, k) for k in range(3)]
    knowns = s.knowns(d) if d <= 3 else [big_known(s, d)]
    fn = getattr(M, f"{s.name}_predictive")
    pts = [[0.0] * d, [1.0, -0.5, 2.0, 0.25, -1][:d], [-2.0, 3.0, 0.25, 1, 1][:d], [10.0, 0.2, -3.0, 0, 5][:d]]
    for i, pf in enumerate(priors):
        for j, kn in enumerate(knowns):
            dist_in = s.prior(pf)
            if s.name == "linear_regression":
                rows = [[1, -1, 2, 0.5, 1][:d], [0] * d, [2.5, 0.25, -1, 3, 0][:d], [-3, 1, 1, 1, 2][:d]]
                for m in (1, 2, 3, 4):
                    X = np.array(rows[:m], float)
                    V0 = np.array(pf["delta_inverse"], float)
                    S = float(pf["beta"]) / float(pf["alpha"]) * (np.eye(m) + X @ V0 @ X.T)
                    mu = X @ np.array(pf["mu"], float)
                    check_t(ctx, s, fn, dict(distribution=dist_in, X=X), 2 * float(pf["alpha"]), mu, S, (d, i, m), pf)
                continue
            if s.name == "multivariate_normal":
                k, nu = float(pf["kappa"]), float(pf["nu"])
                df = nu - d + 1
                S = np.array(pf["psi"], float) * (k + 1) / (k * df)
                check_t(ctx, s, fn, dict(distribution=dist_in), df, np.array(pf["mu"], float), S, (d, i), pf)
                continue
            C = np.array(pf["cov"], float) + np.array(ref.tofloat(s.cov(kn)), float)
            kw = {s.known: np.array(kn[s.known])}
            info = dict(function=fn.__name__, fields=pf, known=kn)
            with ctx.guard(f"{s.name}:matrix", **info):
                res = fn(distribution=dist_in, **kw)
                if type(res) is not D.MultivariateNormal:
                    ctx.fail(f"{s.name}:type", f"returned {type(res).__name__}", **info)
                    continue
                for x in pts:
                    ctx.eval(1, key=(s.name, d, i, j, str(x)))
                    got = float(res.dist.logpdf(np.array(x)))
                    if not ref.close(got, ref.mvn(x, pf["mu"], C), 1e-8, 1e-8):
                        ctx.fail(f"{s.name}:density", f"log density {got!r} at {x}, expected {ref.mvn(x, pf['mu'], C)!r}", outcome=x, **info)
    ctx.sample(function=fn.__name__, fields=pf, known=kn)


def check_t(ctx, s, fn, kw, df, mu, S, key, pf):
    info = dict(function=fn.__name__, fields=pf, X=kw.get("X"))
    m = len(mu)
    with ctx.guard(f"{s.name}:matrix", **info):
        res = fn(**kw)
        if type(res) is not D.MultivariateStudentT:
            ctx.fail(f"{s.name}:type", f"returned {type(res).__name__}", **info)
            return
        for x in ([0.0] * m, [1.0, -0.5, 2.0, 0.25, 3][:m], [-7.0, 3.0, 0.25, 9, 1][:m], list(mu)):
            ctx.eval(1, key=(s.name, key, str(x)))
            got = float(np.reshape(res.dist.logpdf(np.array(x)), ()))
            want = ref.mvt(x, df, mu, S)
            if not ref.close(got, want, 1e-8, 1e-8):
                ctx.fail(f"{s.name}:density", f"log density {got!r} at {x}, expected {want!r}", outcome=x, **info)
