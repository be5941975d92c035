"""C01 discrete posteriors."""

import itertools

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import lattice as L
from mc import ref
from mc.ref import F

ID = "C01"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: every multiset of observations and argument tuple up to a bound, real updates against an exact rational reference machine"
RULE = (
    "state = (prior, known parameters, multiset of observations or tuple of summary arguments); transition = one real "
    "update call; every state checked against Bayes' rule on a parameter grid and exact rational hyperparameters"
)
ASSUMPTIONS = ["float results agree with exact rational arithmetic within 1e-9 relative"]
BOUNDS = {"quick": "multisets of up to 3 observations; >=10^5 argument tuples", "thorough": "multisets of up to 5; ~10^6 argument tuples per model"}

VECS = [[0, 0, 0], [1, 0, 0], [0, 2, 5], [10, 20, 30], [1000, 0, 3], [10**6, 2**31, 10**9], [1, 1, 1], [255, 256, 65535]]
ALPHAS = [[1, 1, 1], [0.5, 2.0, 30.0], [1e-3, 1e3, 1.0], [1e-4, 1e-9, 0.1], [1e8, 0.3, 1e5]]
FORMS = {
    "array": np.array,
    "list": list,
    "tuple": tuple,
    "list of NumPy scalars": lambda v: [np.asarray(x)[()] for x in v],
    "float array": lambda v: np.array(v, float),
    "object array": lambda v: np.array(v, object),
}


def units(tier):
    out = L.lattice_units(L_NAMES(), 3 if tier == "quick" else 5, per=8)
    out += L.sweep_units(L.SWEEP_DISCRETE, tier)
    out += [{"kind": "vectors"}, {"kind": "hypergeometric"}]
    return out


def L_NAMES():
    from mc.spec import DISCRETE

    return DISCRETE


def run(u, ctx):
    k = u["kind"]
    if k == "lattice":
        L.run_lattice(u, ctx)
    elif k == "sweep":
        L.run_sweep(u, ctx)
    elif k == "types":
        L.run_types(u, ctx)
    elif k == "vectors":
        run_vectors(ctx)
    else:
        run_hyper(ctx)


def run_vectors(ctx):
    """count vectors of every length and form"""
    for fn in ("categorical_dirichlet", "multinomial_dirichlet"):
        f = getattr(M, fn)
        for size in (2, 3, 1, 4, 7, 13):
            alphas = [[(a * (i + 1)) for i, a in enumerate((al * 5)[:size])] for al in ALPHAS]
            xs = [(v * 5)[:size] for v in VECS]
            for al, x, (fa, ca), (fx, cx) in itertools.product(alphas, xs, FORMS.items(), FORMS.items()):
                ctx.state((fn, tuple(al), tuple(x), fa, fx))
                ctx.step()
                info = dict(alpha=al, x=x, alpha_form=fa, x_form=fx)
                with ctx.guard(f"{fn}:vectors:{fa}/{fx}", f"{fn} with counts as {fx}", **info):
                    post = f(x=cx(x), prior=D.Dirichlet(alpha=ca(al)))
                    exp = [float(F(a) + F(b)) for a, b in zip(al, x)]
                    got = np.asarray(post.alpha, float)
                    if type(post) is not D.Dirichlet or got.shape != (size,) or not ref.allclose(got, exp):
                        ctx.fail(f"{fn}:vectors:{fa}/{fx}", f"{fn}: alpha {post.alpha!r} instead of {exp}", **info)
                        continue
                    if size > 1 and min(exp) > 0:
                        m = np.asarray(post.dist.mean(), float)
                        if not ref.allclose(m, np.array(exp) / sum(exp), 1e-9):
                            ctx.fail(f"{fn}:posterior mean:{fa}/{fx}", f"{fn}: posterior mean {m}", **info)
                    ctx.trace()
            # several data sets at once, one prior or one prior each
            for x in (np.array(xs[:3]), np.array(xs[1:4])):
                for al in (np.array(alphas[0]), np.array([alphas[0]] * 3), np.array(alphas[:3])):
                    ctx.state((fn, "stack", x.tobytes(), al.tobytes()))
                    ctx.step()
                    with ctx.guard(f"{fn}:stack", f"{fn} with several data sets"):
                        post = f(x=x, prior=D.Dirichlet(alpha=al))
                        if not ref.allclose(np.asarray(post.alpha, float), al + x):
                            ctx.fail(f"{fn}:stack", f"{fn}: alpha {post.alpha!r}", x=x, alpha=al)
                        ctx.trace()
        # counts of the wrong length are not silently cut
        for al, x in (([1, 1, 1], [1, 2]), ([1, 1], [1, 2, 3])):
            for ca, cx in itertools.product((list, tuple, np.array), (list, tuple, np.array)):
                ctx.state((fn, "mismatch", len(al), ca.__name__, cx.__name__))
                ctx.step()
                try:
                    post = f(x=cx(x), prior=D.Dirichlet(alpha=ca(al)))
                except Exception:
                    ctx.trace()
                    continue
                ctx.fail(f"{fn}:mismatch", f"{fn} accepted {len(x)} counts for {len(al)} categories: {post!r}"[:300], alpha=al, x=x)
    ctx.sample(function=fn, alpha=al, x=x)


def run_hyper(ctx):
    """Known finding: the code uses the whole population as the sample. Anything but exactly that is a violation, unless it
    is Bayes' rule."""
    legacy = 0
    reps = [lambda v: v, float, np.float64, np.array]
    for rep, N, a, b in itertools.product(reps, [1, 2, 5, 10, 100, 10**6], [1e-3, 1, 0.5, 3, 20.25, 400], [1, 0.25, 0.7, 2, 50, 1e5]):
        for n in [k for k in (0, 1, 2, 5, 9, 50, 10**4) if k <= N]:
            for x in [k for k in (0, 1, 2, 5, 9, 50, 10**4) if k <= n]:
                ctx.state((reps.index(rep), N, a, b, n, x))
                ctx.step()
                info = dict(N=N, alpha=a, beta=b, n=n, x_total=x, representation=type(rep(N)).__name__)
                with ctx.guard("hypergeometric_beta_binomial", **info):
                    post = M.hypergeometric_beta_binomial(x_total=rep(x), n=rep(n), prior=D.BetaBinomial(n=rep(N), alpha=rep(a), beta=rep(b)))
                    if type(post) is not D.BetaBinomial:
                        ctx.fail("hypergeometric:type", f"returned {type(post).__name__}", **info)
                        continue
                    got = (float(post.n), float(post.alpha), float(post.beta))
                    bayes = [(N - n, a + x, b + n - x), (N, a + x, b + n - x)]
                    if any(ref.allclose(got, w) for w in bayes) and n != N:
                        ctx.trace()
                        continue
                    if not ref.allclose(got, (N, a + x, b + N - x)):
                        ctx.fail("hypergeometric:hyperparameters", f"{got} is neither Bayes' rule nor the known formula", **info)
                        continue
                    legacy += n != N
                    ctx.trace()
    if legacy:
        ctx.fail("hypergeometric:ignores-n", "hypergeometric_beta_binomial uses the population size instead of n", states=legacy)
    ctx.sample(states_with_known_formula=legacy)
