"""C20 seeds and generators: scripted seeds (every answer) and all short histories of real sampling calls."""

import itertools
import os
import pickle
import warnings

import numpy as np

from conjugate import distributions as D
from mc.script import Scripted, TooMany, Unscripted, explore, seeds
from mc.world import DISCRETE, UNI

ID = "C20"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of every answer of a scripted random source behind integer seeds, and explicit-state exploration of all short histories of real sampling calls"
RULE = (
    "scripted: state = (sampler, size, form of the random state, plan of answers), where an integer seed always restarts the same answers; the exact law "
    "under a seed must be the law under a generator that never repeats. real: state = (sequence of sampling calls, random state); transition = one "
    "real call; results are compared with those of the call alone in a fresh process, of a replay, and with each other"
)
ASSUMPTIONS = [
    "integer seeds become np.random.RandomState(seed) or default_rng(seed) (or scipy's check_random_state); other uses leave the scripted part undecided",
    "bitwise equality of replays is asked to 1e-12 relative",
]
BOUNDS = {
    "quick": "40 samplers x sizes 1-3 scripted (as far as 1100 answers reach); 6 seeds x 5 kinds of random state x all ordered pairs of sampling calls; every single answer (up to 64 spread over the call) changed for sizes 9 and 65; distinctness for 30 seeds and sizes up to 1001; Dirichlet plots of 9 sample sizes",
    "thorough": "sizes up to 4 scripted (17000 answers); histories of three calls; single answers for sizes up to 300; distinctness for 200 seeds",
}

S2 = np.array([[2.0, 0.5], [0.5, 1.0]])
MU2 = np.array([0.5, -1.0])
JOINT = {
    "NormalInverseGamma": lambda: D.NormalInverseGamma(mu=1.5, nu=0.5, alpha=3.0, beta=2.0),
    "NormalInverseGamma of 1": lambda: D.NormalInverseGamma(mu=np.array([0.5]), delta_inverse=np.array([[2.0]]), alpha=3.0, beta=2.0),
    "NormalInverseGamma of 2": lambda: D.NormalInverseGamma(mu=MU2, delta_inverse=S2, alpha=3.0, beta=2.0),
    "NormalGamma": lambda: D.NormalGamma(mu=1.5, lam=0.5, alpha=3.0, beta=2.0),
    "NormalInverseWishart of 1": lambda: D.NormalInverseWishart(mu=np.array([0.5]), kappa=2.0, nu=4.0, psi=np.array([[2.0]])),
    "NormalInverseWishart of 2": lambda: D.NormalInverseWishart(mu=MU2, kappa=2.0, nu=4.0, psi=S2),
    "NormalWishart of 1": lambda: D.NormalWishart(mu=np.array([0.5]), lam=2.0, nu=4.0, W=np.array([[2.0]])),
    "NormalWishart of 2": lambda: D.NormalWishart(mu=MU2, lam=2.0, nu=4.0, W=S2),
}
OTHER = {
    "Dirichlet": lambda: D.Dirichlet(alpha=np.array([2.0, 3.0])),
    "Dirichlet rows": lambda: D.Dirichlet(alpha=np.array([[2.0, 3.0], [2.0, 3.0]])),
    "MultivariateNormal": lambda: D.MultivariateNormal(mu=MU2, cov=S2),
    "MultivariateStudentT": lambda: D.MultivariateStudentT(mu=MU2, sigma=S2, nu=4.5),
    "InverseWishart": lambda: D.InverseWishart(nu=4.5, psi=S2),
    "Wishart": lambda: D.Wishart(nu=4.5, V=S2),
    "Multinomial": lambda: D.Multinomial(n=5, p=np.array([0.25, 0.25, 0.5])),
}


def samplers():
    """name -> (f(size, random_state), continuous, whether size may be one more than the elements)"""
    out = {}
    for nm, make in JOINT.items():
        ms = ["sample_variance", "sample_mean"] + (["sample_beta"] if hasattr(make(), "sample_beta") else [])
        for m in ms:
            out[f"{nm}.{m}"] = (lambda size, rs, make=make, m=m: getattr(make(), m)(size=size, random_state=rs), True)
            if m != "sample_variance":
                out[f"{nm}.{m} with variance"] = (lambda size, rs, make=make, m=m: getattr(make(), m)(size=size, return_variance=True, random_state=rs), True)
    for nm, make in OTHER.items():
        out[f"{nm}.dist"] = (lambda size, rs, make=make: make().dist.rvs(size=size, random_state=rs), nm != "Multinomial")
    for c, (sp, vp, _) in UNI.items():
        C = getattr(D, c)
        if not hasattr(C, "dist"):
            continue
        out[f"{c}.dist"] = (lambda size, rs, C=C, sp=sp: C(**sp).dist.rvs(size=size, random_state=rs), c not in DISCRETE)
        if c in ("CompoundGamma", "BetaGeometric", "Normal", "Gamma", "Beta", "Poisson"):
            out[f"{c}.dist of vectors"] = (lambda size, rs, C=C, vp=vp: C(**{k: np.array([v[0], v[0]]) for k, v in vp.items()}).dist.rvs(size=(size, 2), random_state=rs), c not in DISCRETE)
            for fixed in [(), *((k,) for k in sp), *itertools.combinations(sp, len(sp) - 1)] if len(sp) > 1 else [()]:
                # no size: one draw per element of the parameters, whichever of them are vectors
                def elements(size, rs, C=C, sp=sp, fixed=fixed):
                    return C(**{k: v if k in fixed else np.full(size, v) for k, v in sp.items()}).dist.rvs(random_state=rs)

                out[f"{c}.dist without size{''.join(' ' + k for k in fixed)}"] = (elements, c not in DISCRETE)
    return out


SAMPLERS = samplers()
SEEDS = [0, 1, 42, 2**32 - 1, np.int64(7), np.uint8(200)]
KINDS = {
    "int": lambda s: s,
    "RandomState": lambda s: np.random.RandomState(int(s)),
    "default_rng": lambda s: np.random.default_rng(int(s)),
    "MT19937": lambda s: np.random.Generator(np.random.MT19937(int(s))),
    "Philox": lambda s: np.random.Generator(np.random.Philox(int(s))),
}


def units(tier):
    out = []
    for nm in SAMPLERS:
        out.append({"kind": "scripted", "sampler": nm})
        out += [{"kind": "long", "sampler": nm, "size": n} for n in ((9, 65) if tier == "quick" else (9, 17, 33, 65, 129, 300))]
        out.append({"kind": "history", "sampler": nm, "depth": 2 if tier == "quick" else 3})
        if SAMPLERS[nm][1]:
            out.append({"kind": "distinct", "sampler": nm})
    out += [{"kind": "variance", "object": nm} for nm in JOINT]
    out += [{"kind": "plot", "alpha": a} for a in ([1.0, 2.0], [0.5, 2.0, 7.0], [1, 1, 1, 1, 1])]
    return out


def run(u, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        {"scripted": run_scripted, "long": run_long, "history": run_history, "distinct": run_distinct, "variance": run_variance, "plot": run_plot}[u["kind"]](u, ctx)


def flat(r):
    if isinstance(r, tuple):
        return np.concatenate([np.ravel(np.asarray(x, float)) for x in r])
    return np.ravel(np.asarray(r, float))


def rows(r, size):
    """one flat array per sample and part"""
    parts = r if isinstance(r, tuple) else (r,)
    return [np.reshape(np.asarray(x, float), (size, -1)) for x in parts if np.size(x) % size == 0]


def same(a, b):
    a, b = flat(a), flat(b)
    return a.shape == b.shape and bool(np.all((a == b) | np.isnan(a) & np.isnan(b) | (np.abs(a - b) <= 1e-12 * np.abs(b))))


def law(f, nodes, wrap, runs):
    """{rounded result: probability} over every answer"""
    out = {}
    for w, r in explore(lambda g: wrap(f, g), nodes, limit=16, max_runs=runs):
        k = tuple(float(f"{x:.9e}") for x in flat(r))
        out[k] = out.get(k, 0.0) + w
    return out


def same_law(a, b):
    if len(a) != len(b):
        return False
    return all(np.allclose(x, y, rtol=1e-6, atol=1e-9) and abs(a[x] - b[y]) <= 1e-9 for x, y in zip(sorted(a), sorted(b)))


def run_scripted(u, ctx):
    f, _ = SAMPLERS[u["sampler"]]
    nodes = dict(normal=2, gamma=2, beta=2, uniform=2, discrete=2)

    runs = 1100 if ctx.tier == "quick" else 17_000

    def with_seed(seed):
        def wrap(f, g):
            with seeds(g):
                return f(seed)

        return wrap

    for size in (1, 2, 3) if ctx.tier == "quick" else (1, 2, 3, 4):
        try:
            want = law(lambda rs: f(size, rs), nodes, lambda f, g: f(g), runs)
        except (Unscripted, TooMany):
            ctx.sample(undecided=f"{u['sampler']} of size {size} draws in an unscripted way or too often")
            continue
        for seed in (0, 1, np.int64(7), 2**32 - 1):
            ctx.state((u["sampler"], size, repr(seed)))
            ctx.eval(key=(u["sampler"], size, repr(seed)))
            info = dict(sampler=u["sampler"], size=size, seed=repr(seed))
            with ctx.guard(f"{u['sampler']}:scripted", **info):
                try:
                    got = law(lambda rs: f(size, rs), nodes, with_seed(seed), runs)
                except (Unscripted, TooMany):
                    ctx.sample(undecided=f"{u['sampler']} uses its seed in an unscripted way")
                    continue
                ctx.step(len(got))
                if not same_law(got, want):
                    ctx.fail(f"{u['sampler']}:reused", f"{u['sampler']} of size {size} with seed {seed!r}: its draws are not independent draws of one stream ({len(got)} possible results instead of {len(want)})", **info)
                    continue
                ctx.trace()
        ctx.sample(sampler=u["sampler"], size=size, results=len(want), example=[list(k) for k in list(want)[:2]])


def independent_parts(nm, r, size):
    """the parts of a result that no answer may share: one per sample (and per element where elements are drawn separately)"""
    if isinstance(r, tuple):
        return np.concatenate([np.reshape(np.asarray(x, float), (size, -1)) for x in r], axis=1)
    r = np.asarray(r, float)
    if nm.startswith("Dirichlet rows"):
        return np.reshape(r, (2 * size, -1))
    return np.reshape(r, (-1, 1) if nm.endswith("of vectors") else (size, -1))


def run_long(u, ctx):
    """many draws: each answer changes one sample, and a seed leads to as many answers as a generator"""
    nm, size = u["sampler"], u["size"]
    f, _ = SAMPLERS[nm]
    nodes = dict(normal=2, gamma=2, beta=2, uniform=2, discrete=2)

    def at(plan, seed):
        g = Scripted(plan, nodes, limit=10**6)
        ctx.step()
        if seed is None:
            return g, independent_parts(nm, f(size, g), size)
        with seeds(g):
            return g, independent_parts(nm, f(size, seed), size)

    arities = []
    for seed in (None, 0, 42):
        info = dict(sampler=nm, size=size, seed=repr(seed))
        try:
            g, _ = at([], seed)
            base = [(7 * k // 3) % n for k, n in enumerate(g.arity)]
            g, r0 = at(base, seed)
            if g.pos != len(base):
                raise Unscripted  # the number of draws depends on the answers
            arities.append(sorted(g.arity))
            ctx.state((nm, size, repr(seed)))
            ctx.eval(key=(nm, size, repr(seed)))
            if arities[-1] != arities[0]:
                ctx.fail(f"{nm}:reused", f"{nm} of size {size} with seed {seed!r} takes {len(arities[-1])} random numbers, with a generator {len(arities[0])}", **info)
                return
            step = max(1, len(base) // (64 if ctx.tier == "quick" else 512))
            for k in range(0, len(base), step):
                flip = [*base]
                flip[k] = (flip[k] + 1) % max(g.arity[k], 1)
                _, r = at(flip, seed)
                changed = np.flatnonzero(np.max(np.abs(r - r0) > 1e-11 * np.abs(r0), axis=1))
                ctx.state((nm, size, repr(seed), k))
                if len(changed) > 1:
                    ctx.fail(f"{nm}:shared", f"{nm} of size {size} with seed {seed!r}: samples {changed[:4].tolist()} depend on the same random number", **info)
                    return
        except (Unscripted, TooMany):
            ctx.sample(undecided=f"{nm} of size {size} draws in an unscripted way")
            return
        ctx.trace()


def in_child(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def disturb():
    """calls that do not belong to the stream under test"""
    out = {nm: (lambda f=f: f(2, 42)) for nm, (f, _) in SAMPLERS.items()}
    out["np.random.seed"] = lambda: np.random.seed(5)
    out["np.random.normal"] = lambda: np.random.normal(size=3)
    out["without a seed"] = lambda: JOINT["NormalInverseGamma of 2"]().sample_mean(size=3)
    out["rvs without a seed"] = lambda: D.CompoundGamma(alpha=2.5, beta=4.0, lam=1.5).dist.rvs(size=3)
    return out


def run_history(u, ctx):
    nm = u["sampler"]
    f, continuous = SAMPLERS[nm]
    cases = [(kind, s, size) for kind in KINDS for s in SEEDS for size in (1, 2, 5)]

    def alone(kind, s, size):
        r = f(size, KINDS[kind](s))
        return flat(r)

    table = {}
    for c in cases:
        ctx.step()
        with ctx.guard(f"{nm}:{c[0]}", sampler=nm, random_state=c[0], seed=repr(c[1]), size=c[2]):
            table[c] = alone(*c)
    if len(table) < len(cases):
        return
    # the same in a pristine process, in reverse order
    again = in_child(lambda: [alone(*c) for c in reversed(cases)])
    ctx.step(len(cases))
    for c, r in zip(reversed(cases), again):
        ctx.state((nm, c[0], repr(c[1]), c[2]))
        ctx.eval(key=(nm, c[0], repr(c[1]), c[2]))
        if not same(r, table[c]):
            ctx.fail(f"{nm}:process", f"{nm} with {c[0]} {c[1]!r} gives other values in another process", size=c[2])
        else:
            ctx.trace()
    for s in SEEDS:
        for size in (1, 2, 5):
            if not same(f(size, int(s)), table["int", s, size]):
                ctx.fail(f"{nm}:seed type", f"{nm}: seed {s!r} gives other values than {int(s)!r}", size=size)
    if continuous:
        for size in (1, 2, 5):
            for a, b in itertools.combinations([0, 1, 42], 2):
                if np.any(np.isin(table["int", a, size], table["int", b, size])):
                    ctx.fail(f"{nm}:seeds", f"{nm}: seeds {a} and {b} give common values", size=size)
    # after any other call, or two of them
    D_ = disturb()
    some = [("int", 0, 2), ("int", np.int64(7), 2), ("default_rng", 42, 5), ("RandomState", 1, 2)]
    for pre in itertools.chain.from_iterable(itertools.product(D_, repeat=k) for k in range(1, u["depth"])):
        if u["depth"] > 2 and len(pre) == 2 and not any(x in ("np.random.seed", nm) for x in pre):
            continue
        for x in pre:
            D_[x]()
        for c in some if len(pre) == 1 else some[:1]:
            ctx.step()
            ctx.eval(key=(nm, c[0], repr(c[1]), pre))
            if not same(alone(*c), table[c]):
                ctx.fail(f"{nm}:history", f"{nm} with {c[0]} {c[1]!r} gives other values after {pre}", size=c[2])
                break
            ctx.trace()
    # a generator that is passed on: the calls differ from each other and the whole run repeats
    others = [x for x in SAMPLERS if x.split(".")[0] == nm.split(".")[0]] + ["NormalGamma.sample_mean", "CompoundGamma.dist"]
    for kind in [k for k in KINDS if k != "int"]:
        for seq in itertools.product([nm, *others], repeat=u["depth"]):
            seq = (*seq, nm)
            runs = []
            for _ in range(2):
                g = KINDS[kind](42)
                runs.append([flat(SAMPLERS[x][0](2, g)) for x in seq])
                ctx.step(len(seq))
            ctx.state((nm, kind, seq))
            if not all(same(a, b) for a, b in zip(*runs)):
                ctx.fail(f"{nm}:replay", f"{seq} with an equally seeded {kind} gives other values", calls=seq)
                break
            if all(SAMPLERS[x][1] for x in seq):
                dup = [(i, j) for i, j in itertools.combinations(range(len(seq)), 2) if seq[i] == seq[j] and np.any(np.isin(runs[0][i], runs[0][j]))]
                if dup:
                    ctx.fail(f"{nm}:advance", f"calls {dup[0]} of {seq} with one {kind} gave common values", calls=seq)
                    break
            ctx.trace()
    # and discrete ones advance too: the stream moves on
    for kind in [k for k in KINDS if k != "int"]:
        g = KINDS[kind](3)
        a = pickle.dumps(state_of(g))
        f(3, g)
        if pickle.dumps(state_of(g)) == a:
            ctx.fail(f"{nm}:advance", f"{nm} does not advance the {kind} it is given")
    ctx.sample(sampler=nm, seeds=[repr(s) for s in SEEDS], kinds=list(KINDS), calls_before=list(D_)[:8])


def state_of(g):
    return g.get_state()[1:3] if isinstance(g, np.random.RandomState) else repr(g.bit_generator.state)


def run_distinct(u, ctx):
    nm = u["sampler"]
    f, _ = SAMPLERS[nm]
    for seed in range(30 if ctx.tier == "quick" else 200):
        for size in (2, 3, 8, 20, *((65, 129, 1001) if seed < 3 else ())):
            ctx.state((nm, seed, size))
            ctx.eval(key=(nm, seed, size))
            ctx.step()
            with ctx.guard(f"{nm}:distinct", sampler=nm, seed=seed, size=size):
                for part in rows(f(size, seed), size):
                    # no row, and no element, appears twice in the draws
                    col = part[:, 0]
                    if len(np.unique(np.round(col, 14))) < size:
                        ctx.fail(f"{nm}:repeated", f"{nm} of size {size} with seed {seed} repeats draws: {col[:4]}", sampler=nm)
                        break
                else:
                    ctx.trace()
    ctx.sample(sampler=nm, seeds="0-29", sizes=[2, 3, 8, 20, 65, 129, 1001])


def run_plot(u, ctx):
    """plots drawn from samples: the same curves for the same seed, whatever the number of samples, other ones for another seed"""
    from matplotlib.figure import Figure

    alpha = np.array(u["alpha"])

    def draw(rs, **kw):
        ax = Figure().subplots()
        D.Dirichlet(alpha).set_bounds(0, 1).plot_pdf(ax=ax, random_state=rs, **kw)
        return flat([l.get_ydata() for l in ax.lines])

    sizes = [dict(samples=n) for n in (3 + len(alpha), 20, 100, 200, 999, 1000, 1001, 3000)] + [{}]
    cases = [(kind, s, kw) for kind in KINDS for s in SEEDS for kw in sizes if kw == {} or kw["samples"] <= 200 or s in (0, 42)]
    again = in_child(lambda: [draw(KINDS[kind](s), **kw) for kind, s, kw in reversed(cases)])[::-1]
    seen = {}
    for (kind, s, kw), other in zip(cases, again):
        key = (u["alpha"][0], len(alpha), kind, repr(s), str(kw))
        ctx.state(key)
        ctx.eval(key=key)
        ctx.step()
        info = dict(alpha=alpha, random_state=kind, seed=repr(s), **kw)
        with ctx.guard("Dirichlet.plot_pdf", **info):
            a = draw(KINDS[kind](s), **kw)
            np.random.seed(5)
            b = draw(KINDS[kind](s), **kw)
            if not (same(a, b) and same(a, other)):
                ctx.fail("Dirichlet.plot_pdf:replay", "two plots with the same seed differ", **info)
                continue
            for s2, c in seen.setdefault((kind, str(kw)), []):
                if same(a, c):
                    ctx.fail("Dirichlet.plot_pdf:seeds", f"seeds {s2} and {s!r} give the same plot", **info)
                    break
            seen[kind, str(kw)].append((repr(s), a))
            ctx.trace()
    g = np.random.default_rng(1)
    if same(draw(g, samples=20), draw(g, samples=20)):
        ctx.fail("Dirichlet.plot_pdf:advance", "two plots with one generator are equal", alpha=alpha)
    ctx.sample(alpha=u["alpha"], sizes=[str(k) for k in sizes])


def run_variance(u, ctx):
    """asking for the variances does not change the means, and they are those sample_variance gives"""
    make = JOINT[u["object"]]
    methods = [m for m in ("sample_mean", "sample_beta") if hasattr(make(), m)]
    for m, kind, s, size in itertools.product(methods, KINDS, [*SEEDS, *range(100, 110)], (1, 2, 3, 10, 33)):
        ctx.state((u["object"], m, kind, repr(s), size))
        ctx.eval(key=(u["object"], m, kind, repr(s), size))
        ctx.step(2)
        with ctx.guard(f"{u['object']}:{m}", seed=repr(s), random_state=kind, size=size):
            a = getattr(make(), m)(size=size, random_state=KINDS[kind](s))
            b, v = getattr(make(), m)(size=size, return_variance=True, random_state=KINDS[kind](s))
            if np.shape(a) != np.shape(b) or not same(a, b):
                ctx.fail(f"{u['object']}:{m}:variance", f"{m} of {u['object']} gives other means with return_variance=True", seed=repr(s), random_state=kind, size=size)
                continue
            ctx.trace()
    ctx.sample(object=u["object"], methods=methods)
