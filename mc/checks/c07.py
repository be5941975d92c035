"""C07 chained predictions are exchangeable and multiply to the marginal likelihood."""

import itertools
import math

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import lattice as L
from mc import mvspec as V
from mc import ref
from mc.predspec import P as PREDSPEC
from mc.spec import specs

ID = "C07"
LEVEL = "model_checking"
TECHNIQUE = "model checking of predict/observe histories: every sequence up to a depth on the real code against the exact marginal likelihood"
RULE = (
    "state = (model, prior, known, sequence of observations); transition = one real predictive followed by one real update "
    "with the posterior returned before; at every state the accumulated log predictive probability is compared with the "
    "exact marginal likelihood of the data (prior x likelihood / exact posterior), which is the same for every order; one "
    "square per pair of last observations is compared directly as well"
)
ASSUMPTIONS = ["log probabilities agree within 1e-7 absolute and relative"]
BOUNDS = {
    "quick": "all sequences of up to 3 observations over 4-6 atoms for 8 priors per model; of 2 over the wide grid of C06; matrices: dimensions 1-3, up to 3 rows",
    "thorough": "all sequences of up to 4 observations (matrices 3), every prior",
}


def zero(o):
    return 1


def pred(fn, logp, atoms=None, **kw):
    return dict(fn=fn, logp=logp, atoms=atoms, **kw)




def logof(dist, name, x):
    """the log density where there is one, because densities of far outcomes underflow"""
    f = getattr(dist, "log" + name, None)
    return float(np.reshape(f(x), ())) if f is not None else float(np.log(np.reshape(getattr(dist, name)(x), ())))


pmf = lambda dist, x: logof(dist, "pmf", x)
pdf = lambda dist, x: logof(dist, "pdf", x)
PRED = {
    "binomial_beta": pred("binomial_beta", lambda d, o: pmf(d, o[1]), kw=lambda o, kn: {"n": o[0]}),
    "bernoulli_beta": pred("bernoulli_beta", pmf),
    "negative_binomial_beta": pred("negative_binomial_beta", pmf, kw=lambda o, kn: {"r": kn["r"]}, known=lambda kn: kn["r"] != 2.5),
    "geometric_beta[one_start=True]": pred("geometric_beta", pmf, kw=lambda o, kn: {"one_start": True}),
    "geometric_beta[one_start=False]": pred("geometric_beta", pmf, kw=lambda o, kn: {"one_start": False}),
    "geometric_beta[default]": pred("geometric_beta", pmf),
    "categorical_dirichlet": pred("categorical_dirichlet", lambda d, o: pmf(d, np.array(o))),
    "multinomial_dirichlet": pred("multinomial_dirichlet", lambda d, o: pmf(d, np.array(o)), kw=lambda o, kn: {"n": sum(o)},
                                  atoms=[(1, 0, 0), (0, 0, 1), (2, 0, 5), (0, 3, 1)]),
    "poisson_gamma": pred("poisson_gamma", pmf),
    "exponential_gamma": pred("exponential_gamma", pdf),
    "gamma_known_shape": pred("gamma_known_shape", pdf, kw=lambda o, kn: {"alpha": kn["alpha"]}),
    "normal_known_variance": pred("normal_known_variance", pdf, kw=lambda o, kn: {"var": kn["var"]}),
    "normal_known_precision": pred("normal_known_precision", pdf, kw=lambda o, kn: {"precision": kn["precision"]}),
    "normal_known_mean[InverseGamma]": pred("normal_known_mean", pdf, kw=lambda o, kn: {"mu": kn["mu"]}),
    "normal_known_mean[ScaledInverseChiSquared]": pred("normal_known_mean", pdf, kw=lambda o, kn: {"mu": kn["mu"]}),
    "normal[NormalInverseGamma]": pred("normal", pdf),
    "normal[NormalGamma]": pred("normal", pdf),
    "normal_normal_inverse_gamma[NormalInverseGamma]": pred("normal_normal_inverse_gamma", pdf),
}
MPRED = {
    "linear_regression": lambda dist, o, kn: ("linear_regression", {"X": np.array([o[0]], float)}, [o[1]]),
    "multivariate_normal_known_covariance": lambda dist, o, kn: ("multivariate_normal_known_covariance", {"cov": np.array(kn["cov"])}, o),
    "multivariate_normal_known_precision": lambda dist, o, kn: ("multivariate_normal_known_precision", {"precision": np.array(kn["precision"])}, o),
    "multivariate_normal": lambda dist, o, kn: ("multivariate_normal", {}, o),
}

PS = {f"geometric_beta[{x}]": "geometric_beta" for x in ("one_start=True", "one_start=False", "default")}
KNOWNS = {"negative_binomial_beta": [{"r": r} for r in (1, 2, 12, 60, 400)], "normal_known_variance": [{"var": v} for v in (1e-4, 1, 150, 1e6)]}


def units(tier):
    out = []
    depth = 3 if tier == "quick" else 4
    for nm, p in PRED.items():
        s = specs[nm]
        combos = [(i, j) for i in range(len(s.priors)) for j in range(len(s.knowns)) if p.get("known", lambda kn: True)(s.knowns[j])]
        if tier == "quick":
            # every prior and every known value at least once
            full, combos = combos, combos[:: max(1, len(combos) // 16)]
            for x in range(max(len(s.priors), len(s.knowns))):
                i, j = x % len(s.priors), x % len(s.knowns)
                if (i, j) in full and (i, j) not in combos:
                    combos.append((i, j))
        for c in L.chunks(combos, 2):
            out.append({"kind": "scalar", "model": nm, "combos": c, "depth": depth})
        out.append({"kind": "window", "model": nm}) if nm == "poisson_gamma" else None
        n = len(PREDSPEC[PS.get(nm, nm)].fields)
        step = 12 if tier == "quick" else 4
        for a in range(0, n, step):
            out.append({"kind": "grid", "model": nm, "fields": [a, min(a + step, n)], "depth": 2 if tier == "quick" else 3})
    for nm in MPRED:
        s = V.MV[nm]
        for d in (1, 2, 3):
            for i in range(len(s.priors(d))):
                for j in range(len(s.knowns(d))):
                    out.append({"kind": "matrix", "model": nm, "d": d, "prior": i, "known": j, "depth": 3 if tier != "quick" or d < 3 else 2})
    return out


def run(u, ctx):
    {"scalar": run_scalar, "grid": run_grid, "matrix": run_matrix, "window": run_window}[u["kind"]](u, ctx)


def marginal(s, pf, kn, obs):
    """log marginal likelihood through Bayes' rule at a point where every factor is moderate"""
    post = {k: ref.tofloat(v) if not isinstance(v, np.ndarray) else v for k, v in s.expected(pf, obs, kn).items()}
    if "sigma2" in post and "sigma" in pf:
        post["sigma"] = math.sqrt(post["sigma2"])
    best = None
    for t in s.thetas:
        p0 = s.logfam(t, {k: (float(v) if not isinstance(v, np.ndarray) else v) for k, v in pf.items()})
        l = [s.loglik(t, o, kn) for o in obs]
        p1 = s.logfam(t, post)
        if not all(map(math.isfinite, [p0, p1, *l])):
            continue
        v, mag = p0 + math.fsum(l) - p1, abs(p0) + abs(p1) + sum(map(abs, l))
        if best is None or mag < best[1]:
            best = (v, mag)
    return best


def same(a, b, mag=0.0):
    return math.isfinite(a) and abs(a - b) <= 1e-7 * (1 + abs(a)) + 1e-10 * mag


def run_scalar(u, ctx):
    s, p = specs[u["model"]], PRED[u["model"]]
    fpred = getattr(M, f"{p['fn']}_predictive")
    atoms = p["atoms"] or s.atoms
    kwf = p.get("kw") or (lambda o, kn: {})
    for pi, ki in u["combos"]:
        pf, kn = s.priors[pi], s.knowns[ki]

        def logp(obj, o):
            return p["logp"](fpred(distribution=obj, **kwf(o, kn)).dist, o)

        def dfs(obj, seq, total):
            preds = {}
            nexts = {}
            for i, o in enumerate(atoms):
                new = seq + (i,)
                obs = [atoms[j] for j in new]
                ctx.state((s.name, pi, ki, new))
                ctx.step(2)
                info = dict(model=s.name, prior=pf, known=kn, data=L.show(obs))
                with ctx.guard(f"{s.name}:chain", **info):
                    preds[i] = logp(obj, o)
                    t = total + preds[i]
                    m, mag = marginal(s, pf, kn, obs)
                    if not same(t, m, mag):
                        ctx.fail(f"{s.name}:marginal", f"{s.name}: chained log predictive {t!r}, log marginal likelihood {m!r}", **info)
                        continue
                    nexts[i] = s.update(obj, [o], kn)
                    ctx.trace()
                    if len(new) < u["depth"]:
                        dfs(nexts[i], new, t)
            # squares
            if len(seq) <= u["depth"] - 2:
                for i, j in itertools.combinations(nexts, 2):
                    ctx.step(2)
                    a = preds[i] + logp(nexts[i], atoms[j])
                    b = preds[j] + logp(nexts[j], atoms[i])
                    if not same(a, b):
                        ctx.fail(f"{s.name}:square", f"{s.name}: {a!r} in one order, {b!r} in the other", prior=pf, known=kn,
                                 before=L.show([atoms[k] for k in seq]), pair=L.show([atoms[i], atoms[j]]))

        dfs(s.prior(pf), (), 0.0)
        ctx.sample(model=s.name, prior=pf, known=kn, atoms=L.show(atoms), depth=u["depth"])


def run_grid(u, ctx):
    """short chains from the wide grid of priors and known parameters, up to very small and very large ones"""
    nm = u["model"]
    s, p, P = specs[nm], PRED[nm], PREDSPEC[PS.get(nm, nm)]
    fpred = getattr(M, f"{p['fn']}_predictive")
    kwf = p.get("kw") or (lambda o, kn: {})
    fixed = KNOWNS[nm] if nm in KNOWNS else s.knowns if nm.startswith(("geometric", "binomial", "multinomial", "categorical", "poisson")) else P.known
    for fi in range(*u["fields"]):
        pf = P.fields[fi]
        if "alpha" in pf and np.ndim(pf["alpha"]) and len(pf["alpha"]) != 3:
            continue
        for ki, kn in enumerate(fixed):
            atoms = p["atoms"] or s.atoms
            if nm == "poisson_gamma" or nm.startswith(("normal", "gamma", "exponential")):
                atoms = atoms[:3] + [atoms[3] * 10]

            def dfs(obj, seq, total):
                for i, o in enumerate(atoms):
                    new = seq + (i,)
                    obs = [atoms[j] for j in new]
                    ctx.state((nm, "grid", fi, ki, new))
                    ctx.step(2)
                    info = dict(model=nm, prior=pf, known=kn, data=L.show(obs))
                    with ctx.guard(f"{nm}:chain", **info):
                        t = total + p["logp"](fpred(distribution=obj, **kwf(o, kn)).dist, o)
                        m, mag = marginal(s, pf, kn, obs)
                        if t - total < -690 and m - total < -690:  # the density itself is below the smallest normal float
                            continue
                        if not same(t, m, mag):
                            ctx.fail(f"{nm}:marginal", f"{nm}: chained log predictive {t!r}, log marginal likelihood {m!r}", **info)
                            continue
                        ctx.trace()
                        if len(new) < u["depth"]:
                            dfs(s.update(obj, [o], kn), new, t)

            dfs(s.prior(pf), (), 0.0)
    ctx.sample(model=nm, prior=pf, known=kn, atoms=L.show(atoms), depth=u["depth"])


def run_window(u, ctx):
    """Poisson counts of windows of different length: predicting one long window equals predicting its parts in turn"""
    s = specs["poisson_gamma"]
    wins = [0.25, 1, 2, 3.5]
    for pf in s.priors:
        prior = D.Gamma(**pf)
        for w in itertools.product(wins, repeat=2):
            for total in range(6):
                ctx.state((str(pf), w, total))
                with ctx.guard("poisson_gamma:window", prior=pf, windows=w, count=total):
                    whole = float(M.poisson_gamma_predictive(distribution=prior, n=sum(w)).dist.pmf(total))
                    split = 0.0
                    for k in range(total + 1):
                        post = M.poisson_gamma(x_total=k, n=w[0], prior=prior)
                        split += float(M.poisson_gamma_predictive(distribution=prior, n=w[0]).dist.pmf(k)) * float(
                            M.poisson_gamma_predictive(distribution=post, n=w[1]).dist.pmf(total - k))
                        ctx.step(3)
                    if not ref.close(whole, split, 1e-8):
                        ctx.fail("poisson_gamma:window", f"P({total} in {sum(w)}) = {whole!r}, sum over its parts {split!r}", prior=pf, windows=w)
                    ctx.trace()
    ctx.sample(prior=pf, windows=w, count=total, probability=whole)


def run_matrix(u, ctx):
    s, d = V.MV[u["model"]], u["d"]
    pf, kn = s.priors(d)[u["prior"]], s.knowns(d)[u["known"]]
    atoms = s.atoms(d)[:5]

    def marg(obs):
        f = {k: np.asarray(ref.tofloat(v), float) for k, v in s.expected(pf, obs, kn, d).items()}
        f0 = {k: np.asarray(v, float) for k, v in pf.items()}
        best = None
        for t in s.thetas(d):
            a, b, l = s.logfam(t, f0), s.logfam(t, f), [s.loglik(t, o, kn) for o in obs]
            mag = abs(a) + abs(b) + sum(map(abs, l))
            if best is None or mag < best[1]:
                best = (a + math.fsum(l) - b, mag)
        return best

    def dfs(obj, seq, total):
        for i, o in enumerate(atoms):
            new = seq + (i,)
            obs = [atoms[j] for j in new]
            ctx.state((s.name, d, u["prior"], u["known"], new))
            ctx.step(2)
            info = dict(model=s.name, prior=pf, known=kn, data=obs)
            with ctx.guard(f"{s.name}:chain", **info):
                name, kw, x = MPRED[s.name](obj, o, kn)
                dist = getattr(M, f"{name}_predictive")(distribution=obj, **kw).dist
                t = total + float(np.reshape(dist.logpdf(np.array(x, float)), ()))
                m, mag = marg(obs)
                if not same(t, m, mag):
                    ctx.fail(f"{s.name}:marginal", f"{s.name}: chained log predictive {t!r}, log marginal likelihood {m!r}", **info)
                    continue
                ctx.trace()
                if len(new) < u["depth"]:
                    dfs(V.call(s, obj, [o], kn, d), new, t)

    dfs(s.prior(pf), (), 0.0)
    if s.name == "linear_regression":
        # several rows at once: the joint predictive is the product of the chained ones
        for k in (2, 3):
            for seq in itertools.permutations(range(len(atoms)), k):
                obs = [atoms[i] for i in seq]
                X, y = np.array([o[0] for o in obs], float), np.array([o[1] for o in obs], float)
                ctx.state((s.name, d, u["prior"], "joint", seq))
                ctx.step()
                with ctx.guard(f"{s.name}:joint", prior=pf, data=obs):
                    t = float(M.linear_regression_predictive(distribution=s.prior(pf), X=X).dist.logpdf(y))
                    m, mag = marg(obs)
                    if not same(t, m, mag):
                        ctx.fail(f"{s.name}:joint", f"joint log predictive {t!r}, log marginal likelihood {m!r}", prior=pf, data=obs)
                    ctx.trace()
    ctx.sample(model=s.name, prior=pf, known=kn, depth=u["depth"])
