"""C05 sequential updating: every path through the lattice of data sets ends where one update with all data ends."""

import itertools

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import lattice as L
from mc import mvspec as V
from mc import ref
from mc.spec import fields_of, specs

ID = "C05"
LEVEL = "model_checking"
TECHNIQUE = "model checking of update histories: every sequence of batches up to a depth on the real code, all paths to one data set must agree"
RULE = (
    "state = (model, prior, known parameter, sequence of batches absorbed); transition = one real update whose prior is the "
    "object returned by the previous one; every state is compared with the exact posterior of the multiset of all data, so "
    "all orders and groupings of the same data must agree; empty batches are transitions too"
)
ASSUMPTIONS = ["float drift along a path is below 1e-9 relative to the summed terms"]
BOUNDS = {
    "quick": "all sequences of up to 3 batches over an alphabet of 6-8 batches (empty, single, repeated, mixed), 3 argument forms; one chain of 200 updates per prior",
    "thorough": "all sequences of up to 4 batches, all priors; one chain of 200 updates per prior",
}


def batches(n_atoms, min_batch, single):
    if single:
        return [(i,) for i in range(n_atoms)]
    out = [()] if not min_batch else []
    out += [(i,) for i in range(n_atoms)]
    out += [(0, n_atoms - 1), (1, 1, 0), tuple(range(n_atoms))]
    return out


def units(tier):
    out = []
    for nm, s in specs.items():
        combos = [(i, j) for i in range(len(s.priors)) for j in range(len(s.knowns))]
        if tier == "quick":
            # every prior value and every known value in some pair
            combos = sorted({(i, i % len(s.knowns)) for i in range(len(s.priors))} | {(j % len(s.priors), j) for j in range(len(s.knowns))})
            combos = combos[:: max(1, len(combos) // 8)]
        for c in L.chunks(combos, 2 if tier == "quick" else 4):
            out.append({"kind": "scalar", "model": nm, "combos": c, "depth": 3 if tier == "quick" else 4})
        out.append({"kind": "chain", "model": nm})
    for nm, s in V.MV.items():
        for d in (1, 2, 3):
            pri = range(len(s.priors(d)))
            for i in pri:
                out.append({"kind": "matrix", "model": nm, "d": d, "prior": i, "known": i % len(s.knowns(d)), "depth": 3 if tier == "quick" else 4})
    out.append({"kind": "hypergeometric"})
    return out


def run(u, ctx):
    {"scalar": run_scalar, "chain": run_chain, "matrix": run_matrix, "hypergeometric": run_hyper}[u["kind"]](u, ctx)


FORMS = ("plain", "numpy", "vector")


def npval(v):
    if isinstance(v, bool) or isinstance(v, np.ndarray):
        return v
    return np.int64(v) if isinstance(v, int) else np.float64(v)


def make_prior(s, pf, form):
    if form == "vector" and not any(isinstance(v, np.ndarray) for v in pf.values()):
        return s.cls(**{k: np.array([v, v], float) for k, v in pf.items()})
    if form == "numpy":
        return s.cls(**{k: npval(v) for k, v in pf.items()})
    return s.prior(pf)


def elements(s, obj, form):
    f = {k: v for k, v in fields_of(obj).items() if v is not None}
    if form != "vector" or s.cls is D.Dirichlet:
        return [obj]
    out = []
    for i in (0, 1):
        out.append(type(obj)(**{k: (np.asarray(v)[i] if np.ndim(v) else v) for k, v in f.items()}))
    return out


def update(s, obj, obs, kn, form):
    kw = dict(s.stats(obs, kn))
    kw.update({k: kn[k] for k in s.call_known})
    if form == "numpy":
        kw = {k: npval(v) for k, v in kw.items()}
    return getattr(M, s.fn)(prior=obj, **kw)


def judge(s, ctx, post, pf, obs, kn, form, info):
    for e in elements(s, post, form):
        bad = s.compare(e, s.expected(pf, obs, kn), pf, obs, kn)
        if bad:
            ctx.fail(f"{s.name}:path", f"{s.fn}: after {info['batches']} {bad}", **info)
            return False
    return True


def run_scalar(u, ctx):
    s = specs[u["model"]]
    single = getattr(s, "single", False)
    bs = batches(len(s.atoms), s.min_batch, single)
    if len(bs) > 8 and u["depth"] < 4:
        bs = bs[:4] + bs[-4:]
    for (pi, ki), form in itertools.product(u["combos"], FORMS):
        pf, kn = s.priors[pi], s.knowns[ki]
        depth = u["depth"] if form == "plain" else min(2, u["depth"])

        def dfs(obj, path, data):
            for b in bs:
                new = data + [s.atoms[i] for i in b]
                p = path + (b,)
                ctx.state((s.name, pi, ki, form, p))
                ctx.step()
                info = dict(model=s.name, prior=pf, known=kn, form=form, batches=[L.show([s.atoms[i] for i in x]) for x in p])
                with ctx.guard(f"{s.name}:path", f"{s.fn} on a posterior as prior", **info):
                    post = update(s, obj, [s.atoms[i] for i in b], kn, form)
                    if not judge(s, ctx, post, pf, new, kn, form, info):
                        continue
                    ctx.trace()
                    if len(p) < depth:
                        dfs(post, p, new)

        dfs(make_prior(s, pf, form), (), [])
        ctx.sample(model=s.name, prior=pf, known=kn, form=form)


def run_chain(u, ctx):
    """one long history per prior: 200 updates, checked after each"""
    s = specs[u["model"]]
    combos = [(i, i % len(s.knowns)) for i in range(len(s.priors))]
    n = len(s.atoms)
    # products of hundreds of observations leave the range of floats, which the caller sees in their own x_prod
    length = 30 if s.name in ("gamma", "gamma_known_rate", "beta") else 200
    for pi, ki in combos[:: max(1, len(combos) // 6)]:
        pf, kn = s.priors[pi], s.knowns[ki]
        obj, data = s.prior(pf), []
        for k in range(length):
            o = s.atoms[(k * k + k // 3) % n]
            data.append(o)
            ctx.state((s.name, pi, ki, k))
            ctx.step()
            info = dict(model=s.name, prior=pf, known=kn, updates=k + 1, batches=f"{k + 1} single observations")
            with ctx.guard(f"{s.name}:chain", **info):
                obj = s.update(obj, [o], kn)
                if k % 20 == 0 or k < 5 or k == length - 1:
                    bad = s.compare(obj, s.expected(pf, data, kn), pf, data, kn, rtol=1e-8)
                    if bad:
                        ctx.fail(f"{s.name}:chain", f"{s.fn}: after {k + 1} single updates {bad}", **info)
                        break
        ctx.trace()
    ctx.sample(model=s.name, prior=pf, updates=length)


def run_matrix(u, ctx):
    s, d = V.MV[u["model"]], u["d"]
    pf, kn = s.priors(d)[u["prior"]], s.knowns(d)[u["known"]]
    atoms = s.atoms(d)
    bs = [(), (0,), (1,), (3,), (1, 2), (2, 1, 3), tuple(range(len(atoms)))]

    def dfs(obj, path, data):
        for b in bs:
            obs = [atoms[i] for i in b]
            new = data + obs
            p = path + (b,)
            ctx.state((s.name, d, u["prior"], u["known"], p))
            ctx.step()
            info = dict(model=s.name, d=d, prior=pf, known=kn, batches=p)
            with ctx.guard(f"{s.name}:path", **info):
                post = V.call(s, obj, obs, kn, d)
                bad = V.compare(s, post, s.expected(pf, new, kn, d), s.mag(pf, new, d))
                if bad:
                    ctx.fail(f"{s.name}:path", f"{s.name}: {bad}"[:600], **info)
                    continue
                ctx.trace()
                if len(p) < u["depth"]:
                    dfs(post, p, new)

    dfs(s.prior(pf), (), [])
    ctx.sample(model=s.name, prior=pf, known=kn, depth=u["depth"])


def run_hyper(u, ctx):
    """Every intermediate posterior is accepted as a prior and the order does not matter. Known finding (C01): the sample
    size is ignored, so batches do not add up; anything but that formula or Bayes' rule is a violation."""
    bs = [(0, 0), (1, 0), (1, 1), (5, 2), (7, 7), (50, 0)]
    legacy = 0
    for N, a, b in itertools.product([100, 1000], [1, 0.5, 20.25], [1, 0.25, 50]):
        def dfs(obj, path):
            nonlocal legacy
            for n, x in bs:
                p = path + ((n, x),)
                ctx.state((N, a, b, p))
                ctx.step()
                info = dict(N=N, alpha=a, beta=b, batches=p)
                with ctx.guard("hypergeometric:path", **info):
                    post = M.hypergeometric_beta_binomial(x_total=x, n=n, prior=obj)
                    xs, ns = sum(q[1] for q in p), sum(q[0] for q in p)
                    got = (float(post.alpha), float(post.beta))
                    if ref.allclose(got, (a + xs, b + ns - xs)):
                        pass
                    elif ref.allclose(got, (a + xs, b + len(p) * N - xs)) and float(post.n) == N:
                        legacy += 1
                    else:
                        ctx.fail("hypergeometric:path", f"{got} after {p} is neither Bayes' rule nor the known formula", **info)
                        continue
                    ctx.trace()
                    if len(p) < 3:
                        dfs(post, p)

        dfs(D.BetaBinomial(n=N, alpha=a, beta=b), ())
    if legacy:
        ctx.fail("hypergeometric:ignores-n", "hypergeometric_beta_binomial uses the population size instead of n, so that batches do not add up", states=legacy)
    ctx.sample(states_with_known_formula=legacy)
