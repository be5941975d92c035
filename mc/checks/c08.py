"""C08 dist follows the documented parameters."""

import itertools
import math

import numpy as np
from scipy import special as sp

from conjugate import distributions as D
from mc import lattice as L
from mc import ref, script
from mc.distspec import DIST

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "bounded exhaustive enumeration of parameters and points; exhaustive exploration of all choices of a scripted random generator"
RULE = (
    "case = (class, parameters, point, function), enumerated as full products of parameter grids and points on and off the "
    "support, with scalar, vector and matrix parameters; non-trivial = positive density and 0 < cdf < 1. Own samplers: every "
    "combination of the nodes of the scripted generator's draws"
)
ASSUMPTIONS = ["scipy's own densities are accurate to 1e-7 relative", "Gauss rules stand for the elementary laws numpy draws from"]
BOUNDS = {
    "quick": "4-150 parameter tuples per class x 8-20 points; multivariate classes to dimension 4",
    "thorough": "same, with longer probability tables and more parameter forms",
}


def units(tier):
    out = []
    for nm, s in DIST.items():
        for c in L.chunks(range(len(s.fields)), 40):
            out.append({"kind": "scalar", "cls": nm, "fields": c})
        out.append({"kind": "vector", "cls": nm})
    out += [{"kind": "multi", "cls": n} for n in MULTI]
    for n in ("BetaGeometric", "CompoundGamma"):
        out += [{"kind": "sampler", "cls": n, "a": a} for a in (None, *SAMPLER_A)]
    out += [{"kind": "sampler", "cls": "VectorizedDirichlet"}]
    return out


def run(u, ctx):
    if u["kind"] == "scalar":
        run_scalar(u, ctx)
    elif u["kind"] == "vector":
        run_vector(u, ctx)
    elif u["kind"] == "multi":
        MULTI[u["cls"]](ctx)
    else:
        SAMPLERS[u["cls"]](ctx, u.get("a"))


SAMPLER_A = [0.5, 1, 2.5, 20]


def dens_ok(got, lp, rtol=1e-7):
    got = float(got)
    if lp == ref.NINF:
        return got == 0
    if lp == math.inf or lp > 690:
        return got > 1e290
    w = math.exp(lp)
    if w < 1e-290:
        return 0 <= got < 1e-280
    return ref.close(got, w, rtol * max(1, abs(lp) * 0.02), 0)


def cdf_ok(got, want):
    got = float(got)
    return math.isfinite(got) and abs(got - want) <= 1e-9 + 1e-7 * min(want, 1 - want if want < 1 else 1)


def edge(s, f, x):
    """a bound of the support of a continuous law, where the density is a convention"""
    if s.discrete or s.support is None:
        return False
    return x in s.support(f)


def check_point(s, ctx, dist, f, x, get, info):
    lp = s.log(x, f)
    name = "pmf" if s.discrete else "pdf"
    F = s.cdf(x, f) if s.cdf else None
    if s.cls is D.Hypergeometric and x != int(x):
        F = None  # scipy gives nan between the atoms
    ctx.eval(1, key=(s.name, str(f), x, info.get("form")) if lp > ref.NINF else None)
    if not edge(s, f, x):
        got = get(getattr(dist, name))
        if not dens_ok(got, lp):
            ctx.fail(f"{s.name}:{name}", f"{s.name}.dist.{name}({x}) = {got!r}, expected {math.exp(min(lp, 700))!r}", x=x, **info)
        lf = getattr(dist, "log" + name, None)
        if lf is not None and abs(lp) < 1e6:
            got = float(get(lf))
            if not (got == lp or ref.close(got, lp, 1e-7, 1e-7)):
                ctx.fail(f"{s.name}:log{name}", f"{s.name}.dist.log{name}({x}) = {got!r}, expected {lp!r}", x=x, **info)
    if F is not None:
        got = get(dist.cdf)
        if not cdf_ok(got, F):
            ctx.fail(f"{s.name}:cdf", f"{s.name}.dist.cdf({x}) = {got!r}, expected {F!r}", x=x, **info)


def run_scalar(u, ctx):
    s = DIST[u["cls"]]
    for i in u["fields"]:
        f = s.fields[i]
        for form in ("python", "numpy", "0-d"):
            cast = {"python": lambda v: v, "numpy": lambda v: v if isinstance(v, bool) else np.asarray(v)[()], "0-d": lambda v: v if isinstance(v, bool) else np.array(v)}[form]
            info = dict(cls=s.name, fields=f, form=form)
            with ctx.guard(s.name, **info):
                obj = s.cls(**{k: cast(v) for k, v in f.items()})
                dist = obj.dist
                pts = s.points(f)
                for x in pts:
                    check_point(s, ctx, dist, f, x, lambda g: np.reshape(g(x), ()), info)
                if form != "python":
                    continue
                arr = np.array(pts, float)
                for j, x in enumerate(pts):
                    check_point(s, ctx, dist, f, x, lambda g: g(arr)[j], {**info, "form": "array of points"})
                if s.cdf is None:
                    # only differences of the cumulative probability are determined for an angle
                    a, b = -1.0, 1.25
                    t = np.linspace(a, b, 2001)
                    area = float(np.sum(np.exp([s.log(x, f) for x in (t[:-1] + t[1:]) / 2]))) * (t[1] - t[0])
                    if not ref.close(float(dist.cdf(b)) - float(dist.cdf(a)), area, 1e-4, 1e-6):
                        ctx.fail(f"{s.name}:cdf", f"cdf({b}) - cdf({a}) = {float(dist.cdf(b)) - float(dist.cdf(a))!r}, area {area!r}", **info)
                    continue
                moments(s, ctx, dist, f, info)
        ctx.sample(cls=s.name, fields=f, points=pts)


def moments(s, ctx, dist, f, info):
    if hasattr(dist, "mean"):
        m, got = s.mean(f), float(dist.mean())
        ok = not math.isfinite(got) if m is None else (not math.isfinite(got) or got > 1e12) if m == math.inf else ref.close(got, m, 1e-7, 1e-9)
        if not ok:
            ctx.fail(f"{s.name}:mean", f"{s.name}.dist.mean() = {got!r}, expected {m!r}", **info)
    if hasattr(dist, "support"):
        lo, hi = map(float, dist.support())
        a, b = s.support(f)
        if not (ref.close(lo, a, 1e-12) and ref.close(hi, b, 1e-12)):
            ctx.fail(f"{s.name}:support", f"{s.name}.dist.support() = {(lo, hi)!r}, expected {(a, b)!r}", **info)
    if hasattr(dist, "ppf") and s.cls is not D.BetaNegativeBinomial and f.get("p") != 1:  # scipy searches, or has a quirk at p = 1
        for q in (0.025, 0.3, 0.5, 0.975):
            x = float(dist.ppf(q))
            ctx.eval(1)
            if s.discrete:
                k = math.floor(x)
                if k > 5000:
                    continue
                if not (x == k and s.cdf(k, f) >= q - 1e-9 and s.cdf(k - 1, f) <= q + 1e-9):
                    ctx.fail(f"{s.name}:ppf", f"{s.name}.dist.ppf({q}) = {x!r}", **info)
            elif 1e-250 < abs(x) < 1e250 and not abs(s.cdf(x, f) - q) < 1e-6 and abs(x) > 1e-8:
                lo, hi = s.cdf(np.nextafter(x, -math.inf), f), s.cdf(np.nextafter(x, math.inf), f)
                if not lo - 1e-6 <= q <= hi + 1e-6:
                    ctx.fail(f"{s.name}:ppf", f"{s.name}.dist.ppf({q}) = {x!r} has probability {s.cdf(x, f)!r}", **info)
    if hasattr(dist, "sf") and s.cdf:
        x = s.points(f)[5]
        if not cdf_ok(1 - float(dist.sf(x)), s.cdf(x, f)):
            ctx.fail(f"{s.name}:sf", f"{s.name}.dist.sf({x}) = {float(dist.sf(x))!r}", **info)


def vector_forms(s):
    """parameter tuples combined into vectors and matrices, mixed with scalars"""
    fs = [f for f in s.fields if all(f.get(o) == s.fields[0].get(o) for o in s.options)]
    n = len(fs)
    pick = [fs[(7 * i + 3) % n] for i in range(min(6, n))]
    names = [k for k in fs[0] if k not in s.options]
    yield "vector", pick, (len(pick),), lambda k: np.array([p[k] for p in pick])
    if len(pick) == 6:
        yield "matrix", pick, (3, 2), lambda k: np.array([p[k] for p in pick]).reshape(3, 2)
    for keep in names:
        if len(names) == 1:
            break
        same = [f for f in fs if f[keep] == fs[n // 2][keep]][:5]
        if len(same) > 1:
            yield f"scalar {keep}", same, (len(same),), (lambda keep, same: lambda k: same[0][k] if k == keep else np.array([p[k] for p in same]))(keep, same)
    # outer product of two parameters
    if len(names) == 2:
        a, b = names
        va = sorted({f[a] for f in fs})[:3]
        vb = sorted({f[b] for f in fs})[-3:]
        tab = {(f[a], f[b]): f for f in fs}
        if all((x, y) in tab for x in va for y in vb):
            flat = [tab[x, y] for x in va for y in vb]
            yield "outer", flat, (3, 3), lambda k: np.array(va)[:, None] if k == a else np.array(vb)[None, :]


def run_vector(u, ctx):
    s = DIST[u["cls"]]
    options = [dict()] if not s.options else [{}, {"one_start": True}, {"one_start": False}]
    for opt in options:
        for form, flat, shape, build in vector_forms(s):
            names = [k for k in flat[0] if k not in s.options]
            flat = [{**{k: f[k] for k in names}, **opt} for f in flat]
            info = dict(cls=s.name, form=form, fields=flat)
            with ctx.guard(f"{s.name}:vector", **info):
                obj = s.cls(**{k: build(k) for k in names}, **opt)
                dist = obj.dist
                pts = s.points(flat[0])
                for x in pts:
                    for j, f in enumerate(flat):
                        def get(g):
                            v = np.asarray(g(x))
                            return v.reshape(-1)[j] if v.shape == shape else (_ for _ in ()).throw(ValueError(f"shape {v.shape} instead of {shape}"))

                        check_point(s, ctx, dist, f, x, get, {**info, "element": f})
                if len(shape) == 1:
                    # one column of points against a row of parameters
                    arr = np.array(pts, float)[:, None]
                    for j, f in enumerate(flat):
                        for r, x in enumerate(pts):
                            check_point(s, ctx, dist, f, x, lambda g: np.broadcast_to(g(arr), (len(pts), shape[0]))[r, j], {**info, "element": f})
                if hasattr(dist, "mean") and s.mean:
                    m = np.broadcast_to(dist.mean(), shape).reshape(-1)
                    for got, f in zip(m, flat):
                        w = s.mean(f)
                        if w is not None and math.isfinite(w) and not ref.close(got, w, 1e-7, 1e-9):
                            ctx.fail(f"{s.name}:mean", f"mean {got!r}, expected {w!r}", **info)
    ctx.sample(cls=s.name, form=form, fields=flat)


# -- multivariate -------------------------------------------------------------------------------


def multi(cls, check):
    def f(ctx):
        with ctx.guard(cls):
            check(ctx, cls)
        ctx.sample(cls=cls)

    return f


def near(ctx, name, what, got, want, rtol=1e-7, **info):
    ctx.eval(1, key=(name, what, str(info)))
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.size != want.size or not ref.allclose(got.reshape(want.shape), want, rtol, 1e-9):
        ctx.fail(f"{name}:{what}", f"{name}.dist.{what} = {got.tolist()}, expected {want.tolist()}", **info)


ALPHAS = [[1, 1], [0.5, 2.0], [1, 1, 1], [0.5, 2.0, 30.0], [3, 1, 2], [0.25, 1.5, 4, 2]]


def simplex(d):
    return [np.array(v, float)[:d] / sum(v[:d]) for v in ([1, 1, 1, 1], [1, 2, 3, 4], [8, 1, 1, 3], [1, 20, 5, 2])]


def c_dirichlet(ctx, name):
    for a in ALPHAS:
        for form in (list, tuple, np.array):
            dist = D.Dirichlet(alpha=form(a)).dist
            for x in simplex(len(a)):
                near(ctx, name, "pdf", dist.pdf(x), math.exp(ref.dirichlet(x, a)), alpha=a, x=x.tolist(), form=form.__name__)
            near(ctx, name, "mean", dist.mean(), np.array(a) / sum(a), alpha=a, form=form.__name__)
    for rows in ([[1, 2, 3], [0.5, 4, 1]], [[1, 1], [2, 5], [9, 0.5]], [[1, 2, 3]]):
        dist = D.Dirichlet(alpha=np.array(rows)).dist
        near(ctx, name, "mean", dist.mean(), [np.array(r) / sum(r) for r in rows], alpha=rows)
        r = dist.rvs(size=4, random_state=np.random.default_rng(1))
        ctx.eval(1)
        if np.shape(r) != (len(rows), 4, len(rows[0])) or not np.allclose(np.sum(r, axis=-1), 1):
            ctx.fail(f"{name}:rvs shape", f"samples of shape {np.shape(r)}", alpha=rows)
    for n in (1, 2, 5):
        near(ctx, name, "uninformative", D.Dirichlet.uninformative(n).alpha, np.ones(n), n=n)


def compositions(n, d):
    from mc.predspec import compositions as c

    return list(c(n, d))


def c_multinomial(ctx, name):
    for p in ([0.5, 0.5], [0.2, 0.3, 0.5], [0.1, 0.2, 0.3, 0.4]):
        for n in (1, 2, 5):
            dist = D.Multinomial(n=n, p=np.array(p)).dist
            for x in compositions(n, len(p)):
                near(ctx, name, "pmf", dist.pmf(np.array(x)), math.exp(ref.multinomial(x, p)), n=n, p=p, x=x)
            near(ctx, name, "pmf", dist.pmf(np.array([n + 1] + [0] * (len(p) - 1))), 0, n=n, p=p, x="off")
            near(ctx, name, "mean", dist.mean() if hasattr(dist, "mean") else np.array(p) * n, np.array(p) * n, n=n, p=p)


def c_dm(ctx, name):
    for a in ALPHAS:
        for n in (1, 2, 4):
            dist = D.DirichletMultinomial(alpha=np.array(a), n=n).dist
            for x in compositions(n, len(a)):
                near(ctx, name, "pmf", dist.pmf(np.array(x)), math.exp(ref.dirichlet_multinomial(x, a)), n=n, alpha=a, x=x)
            near(ctx, name, "pmf", dist.pmf(np.array([n + 1] + [0] * (len(a) - 1))), 0, n=n, alpha=a, x="off")
            near(ctx, name, "mean", dist.mean(), n * np.array(a) / sum(a), n=n, alpha=a)


def matrices(d):
    from mc.mvspec import PD, pd_matrix

    return [np.array(m, float) for m in (PD[d] if d <= 3 else [pd_matrix(d, 0), pd_matrix(d, 3)])]


MUS = lambda d: [np.zeros(d), np.array([1.0, -2.0, 0.5, 4.0])[:d]]
XS = lambda d: [np.zeros(d), np.ones(d), np.array([1.0, -0.5, 2.0, 0.25])[:d], np.array([-7.0, 3, 1, 2])[:d]]


def c_mvn(ctx, name):
    for d in (1, 2, 3, 4):
        for mu, C in itertools.product(MUS(d), matrices(d)):
            dist = D.MultivariateNormal(mu=mu, cov=C).dist
            for x in XS(d):
                near(ctx, name, "logpdf", dist.logpdf(x), ref.mvn(x, mu, C), mu=mu.tolist(), cov=C.tolist(), x=x.tolist())
            near(ctx, name, "logpdf array", dist.logpdf(np.array(XS(d))), [ref.mvn(x, mu, C) for x in XS(d)], mu=mu.tolist(), cov=C.tolist())
            near(ctx, name, "mean", dist.mean, mu, mu=mu.tolist(), cov=C.tolist())
            near(ctx, name, "cov", dist.cov, C, mu=mu.tolist(), cov=C.tolist())


def c_mvt(ctx, name):
    for d in (1, 2, 3, 4):
        for mu, C, nu in itertools.product(MUS(d), matrices(d), (0.5, 1, 4, 60)):
            dist = D.MultivariateStudentT(mu=mu, sigma=C, nu=nu).dist
            for x in XS(d):
                near(ctx, name, "logpdf", dist.logpdf(x), ref.mvt(x, nu, mu, C), mu=mu.tolist(), sigma=C.tolist(), nu=nu, x=x.tolist())


def c_iw(ctx, name):
    for d in (1, 2, 3):
        for C, k in itertools.product(matrices(d), (0, 1.5, 6)):
            nu = d + k
            dist = D.InverseWishart(nu=nu, psi=C).dist
            for S in matrices(d):
                near(ctx, name, "logpdf", dist.logpdf(S), ref.inverse_wishart(S, nu, C), nu=nu, psi=C.tolist(), x=S.tolist())
            if nu > d + 1:
                near(ctx, name, "mean", dist.mean(), C / (nu - d - 1), nu=nu, psi=C.tolist())


def c_w(ctx, name):
    for d in (1, 2, 3):
        for C, k in itertools.product(matrices(d), (0, 1.5, 6)):
            nu = d + k
            dist = D.Wishart(nu=nu, V=C).dist
            for S in matrices(d):
                # density of a Wishart from that of the inverse Wishart of the inverse matrix
                lp = ref.inverse_wishart(np.linalg.inv(S), nu, np.linalg.inv(C)) - (d + 1) * np.linalg.slogdet(S)[1]
                near(ctx, name, "logpdf", dist.logpdf(S), lp, nu=nu, V=C.tolist(), x=S.tolist())
            near(ctx, name, "mean", dist.mean(), C * nu, nu=nu, V=C.tolist())


MULTI = {
    n: multi(n, f)
    for n, f in {
        "Dirichlet": c_dirichlet, "Multinomial": c_multinomial, "DirichletMultinomial": c_dm, "MultivariateNormal": c_mvn,
        "MultivariateStudentT": c_mvt, "InverseWishart": c_iw, "Wishart": c_w,
    }.items()
}


# -- samplers written in this library -------------------------------------------------------------


def table(fn, ctx, **kw):
    out = list(script.explore(fn, **kw))
    ctx.evaluations += len(out)
    ctx.n_nontrivial += len(out)
    return out


def s_beta_geometric(ctx, only):
    for a, b, one in itertools.product([only] if only else [], [0.5, 1, 3, 20], (True, False)):
        info = dict(alpha=a, beta=b, one_start=one)
        f = {"alpha": a, "beta": b, "one_start": one}
        obj = D.BetaGeometric(**f)
        sizes = [None, 1, (1,), (1, 1)]
        for size in sizes:
            with ctx.guard("BetaGeometric:rvs", **info):
                try:
                    runs = table(lambda g: obj.dist.rvs(size=size, random_state=g), ctx, nodes=dict(beta=24, discrete=24))
                except (script.Unscripted, script.TooMany):
                    continue
                law = {}
                for w, x in runs:
                    want = () if size is None else tuple(np.atleast_1d(size))
                    if np.shape(x) != want:
                        ctx.fail("BetaGeometric:rvs shape", f"shape {np.shape(x)} for size {size}", **info)
                        break
                    k = float(np.reshape(x, ()))
                    law[k] = law.get(k, 0) + w
                for k in range(0, 24):
                    e = math.exp(ref.beta_geometric(k, a, b, one))
                    if not ref.close(law.get(k, 0.0), e, 1e-6, 1e-9):
                        ctx.fail("BetaGeometric:rvs law", f"P({k}) = {law.get(k, 0.0)!r} for samples, expected {e!r}", **info)
                if any(k != int(k) or k < one for k in law):
                    ctx.fail("BetaGeometric:rvs law", f"samples off the support: {sorted(law)[:5]}", **info)
    # vector parameters and several samples: every entry has its own law, entries are independent
    for A, B, size in () if only else (([0.5, 3.0], 2.0, None), ([0.5, 3.0], [2.0, 1.0], (2,)), (2.0, 1.5, 2), (2.0, [1.5, 4], None)):
        obj = D.BetaGeometric(alpha=np.array(A) if isinstance(A, list) else A, beta=np.array(B) if isinstance(B, list) else B)
        info = dict(alpha=A, beta=B, size=size)
        with ctx.guard("BetaGeometric:rvs vector", **info):
            try:
                runs = table(lambda g: obj.dist.rvs(size=size, random_state=g), ctx, nodes=dict(beta=6, discrete=6))
            except (script.Unscripted, script.TooMany):
                continue
            bad = [np.shape(x) for _, x in runs if np.shape(x) != (2,)]
            if bad:
                ctx.fail("BetaGeometric:rvs shape", f"shape {bad[0]}", **info)
                continue
            AA, BB = np.broadcast_to(A, 2), np.broadcast_to(B, 2)
            for k0, k1 in itertools.product(range(1, 6), repeat=2):
                got = sum(w for w, x in runs if x[0] == k0 and x[1] == k1)
                e = math.exp(ref.beta_geometric(k0, AA[0], BB[0]) + ref.beta_geometric(k1, AA[1], BB[1]))
                if not ref.close(got, e, 1e-6, 1e-9):
                    ctx.fail("BetaGeometric:rvs law", f"P({k0}, {k1}) = {got!r} for samples, expected {e!r}", **info)
    ctx.sample(cls="BetaGeometric", **info)


def s_compound_gamma(ctx, only):
    for a, b, q in itertools.product([only] if only else [], [0.5, 1, 3, 20], [0.25, 6]):
        obj = D.CompoundGamma(alpha=a, beta=b, lam=q)
        info = dict(alpha=a, beta=b, lam=q)
        for size in (None, 1, (1,)):
            with ctx.guard("CompoundGamma:rvs", **info):
                try:
                    runs = table(lambda g: obj.dist.rvs(size=size, random_state=g), ctx, nodes=dict(gamma=32))
                except (script.Unscripted, script.TooMany):
                    continue
                want = () if size is None else tuple(np.atleast_1d(size))
                if np.shape(runs[0][1]) != want:
                    ctx.fail("CompoundGamma:rvs shape", f"shape {np.shape(runs[0][1])} for size {size}", **info)
                    continue
                # x / (x + q) is Beta(a, b)
                y = np.array([float(np.reshape(x, ())) for _, x in runs])
                w = np.array([w for w, _ in runs])
                y = y / (y + q)
                m1, m2 = float(w @ y), float(w @ y**2)
                e1 = a / (a + b)
                e2 = e1 * (a + 1) / (a + b + 1)
                if not (abs(m1 - e1) < 1.5e-2 and abs(m2 - e2) < 1.5e-2):
                    ctx.fail("CompoundGamma:rvs law", f"moments of x/(x+lam) are {m1!r}, {m2!r}, expected {e1!r}, {e2!r}", **info)
    for A, B, Q, size in () if only else (([1.0, 3.0], 2.0, 1.5, None), (2.0, [1.0, 3.0], 0.5, (2,)), (2.0, 3.0, [0.5, 6], None), (2.0, 3.0, 1.0, 2)):
        arr = lambda v: np.array(v) if isinstance(v, list) else v
        obj = D.CompoundGamma(alpha=arr(A), beta=arr(B), lam=arr(Q))
        info = dict(alpha=A, beta=B, lam=Q, size=size)
        with ctx.guard("CompoundGamma:rvs vector", **info):
            try:
                runs = table(lambda g: obj.dist.rvs(size=size, random_state=g), ctx, nodes=dict(gamma=9))
            except (script.Unscripted, script.TooMany):
                continue
            if np.shape(runs[0][1]) != (2,):
                ctx.fail("CompoundGamma:rvs shape", f"shape {np.shape(runs[0][1])}", **info)
                continue
            w = np.array([w for w, _ in runs])
            y = np.array([x for _, x in runs])
            AA, BB, QQ = (np.broadcast_to(v, 2) for v in (A, B, Q))
            y = y / (y + QQ)
            e = AA / (AA + BB)
            m = w @ y
            cov = float(w @ ((y[:, 0] - m[0]) * (y[:, 1] - m[1])))
            if not (np.all(np.abs(m - e) < 1e-2) and abs(cov) < 1e-3):
                ctx.fail("CompoundGamma:rvs law", f"means of x/(x+lam) are {m.tolist()}, expected {e.tolist()}, covariance {cov!r}", **info)
    ctx.sample(cls="CompoundGamma", **info)


def s_vectorized(ctx, only):
    for rows in ([[1.0, 2.0], [3.0, 0.5]], [[2.0, 1.0, 1.5]]):
        info = dict(alpha=rows)
        obj = D.Dirichlet(alpha=np.array(rows))
        with ctx.guard("VectorizedDist:rvs size", **info):
            for kw in ({}, {"size": 1}, {"size": 4}):
                x = obj.dist.rvs(random_state=3, **kw)
                ctx.eval(key=("vectorized size", str(rows), str(kw)))
                if np.shape(x) != (len(rows), kw.get("size", 1), len(rows[0])):
                    ctx.fail("VectorizedDist:rvs shape", f"shape {np.shape(x)} for {kw}", **info)
            if not np.array_equal(obj.dist.rvs(random_state=3), obj.dist.rvs(size=1, random_state=3)):
                ctx.fail("VectorizedDist:rvs shape", "the default is not one sample", **info)
        with ctx.guard("VectorizedDist:rvs", **info):
            try:
                runs = table(lambda g: obj.dist.rvs(size=1, random_state=g), ctx, nodes=dict(gamma=9, beta=9))
            except (script.Unscripted, script.TooMany):
                continue
            if np.shape(runs[0][1]) != (len(rows), 1, len(rows[0])):
                ctx.fail("VectorizedDist:rvs shape", f"shape {np.shape(runs[0][1])}", **info)
                continue
            w = np.array([w for w, _ in runs])
            y = np.array([x[:, 0, :] for _, x in runs])
            m = np.einsum("r,rij->ij", w, y)
            for i, r in enumerate(rows):
                if not np.all(np.abs(m[i] - np.array(r) / sum(r)) < 1e-2):
                    ctx.fail("VectorizedDist:rvs law", f"row {i} has mean {m[i].tolist()}", **info)
            if len(rows) == 2:
                cov = float(w @ ((y[:, 0, 0] - m[0, 0]) * (y[:, 1, 0] - m[1, 0])))
                if abs(cov) > 1e-3:
                    ctx.fail("VectorizedDist:rvs law", f"rows are correlated: {cov!r}", **info)
    ctx.sample(**info)


SAMPLERS = {"BetaGeometric": s_beta_geometric, "CompoundGamma": s_compound_gamma, "VectorizedDirichlet": s_vectorized}
