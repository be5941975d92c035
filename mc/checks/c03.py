"""C03 regression and multivariate posteriors."""

import itertools
import math

import numpy as np

from mc import mvspec as V
from mc import ref

ID = "C03"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: every sequence of rows up to a bound, real updates against exact rational matrix machines"
RULE = (
    "state = (prior, known matrix, sequence of rows); transition = one real update with that data matrix; every state is "
    "compared with exact rational hyperparameters, symmetry, and Bayes' rule on a grid of parameters"
)
ASSUMPTIONS = ["well-conditioned priors; 1e-8 relative agreement with exact rationals"]
BOUNDS = {
    "quick": "dimensions 1-3, all sequences of up to 3 rows over 4-7 row atoms; dimensions 1-6 x 0-40 rows patterned; 8 array layouts; scalar hyperparameters and sample sizes over 9-18 values in 6 representations",
    "thorough": "dimensions 1-3, all sequences of up to 4 rows; dimensions 1-8 x 0-200 rows patterned; 8 array layouts; scalar hyperparameters and sample sizes over 9-18 values in 6 representations",
}


def units(tier):
    depth = 3 if tier == "quick" else 4
    out = []
    for name, s in V.MV.items():
        for d in (1, 2, 3):
            for i in range(len(s.priors(d))):
                for j in range(len(s.knowns(d))):
                    out.append({"kind": "rows", "model": name, "d": d, "prior": i, "known": j, "depth": depth})
        for d in range(1, 7 if tier == "quick" else 9):
            out.append({"kind": "big", "model": name, "d": d, "rows": [0, 1, 2, d, d + 1, 12, 40] + ([100, 200] if tier != "quick" else [])})
        out.append({"kind": "layout", "model": name})
        for d in (1, 2):
            out.append({"kind": "scalars", "model": name, "d": d})
    return out


def run(u, ctx):
    {"rows": run_rows, "big": run_big, "layout": run_layout, "scalars": run_scalars}[u["kind"]](u, ctx)


def bayes(s, post, pf, obs, kn, d, ctx, info):
    f = {k: getattr(post, k) for k in s.fields}
    vals, mags = [], [0.0]
    for t in s.thetas(d):
        a, b = s.logfam(t, f), s.logfam(t, pf)
        l = [s.loglik(t, o, kn) for o in obs]
        vals.append(a - b - math.fsum(l))
        mags += [abs(a), abs(b), *[abs(x) for x in l]]
    if not all(map(math.isfinite, vals)) or max(vals) - min(vals) > 1e-8 * (1 + max(mags)):
        ctx.fail(f"{s.name}:bayes", f"{s.name}: log posterior - log prior - log likelihood is not constant: {vals}", **info)


def run_rows(u, ctx):
    s, d = V.MV[u["model"]], u["d"]
    pf, kn = s.priors(d)[u["prior"]], s.knowns(d)[u["known"]]
    prior = s.prior(pf)
    atoms = s.atoms(d)
    for k in range(u["depth"] + 1):
        for seq in itertools.product(range(len(atoms)), repeat=k):
            obs = [atoms[i] for i in seq]
            ctx.state((s.name, d, u["prior"], u["known"], seq))
            ctx.step()
            info = dict(model=s.name, prior=pf, known=kn, rows=obs)
            with ctx.guard(s.name, **info):
                post = V.call(s, prior, obs, kn, d)
                bad = V.compare(s, post, s.expected(pf, obs, kn, d), s.mag(pf, obs, d))
                if bad:
                    ctx.fail(f"{s.name}:hyperparameters", f"{s.name}: {bad}", **info)
                    continue
                if k < 3 or seq == tuple(sorted(seq)):
                    bayes(s, post, pf, obs, kn, d, ctx, info)
                ctx.trace()
    ctx.sample(model=s.name, prior=pf, known=kn, rows=obs)


def big_prior(s, d, k=0):
    mu = [((3 * i + k) % 5) / 2 - 1 for i in range(d)]
    m = V.pd_matrix(d, k)
    return {
        "linear_regression": {"mu": mu, "delta_inverse": m, "alpha": 2, "beta": 1.5},
        "multivariate_normal_known_covariance": {"mu": mu, "cov": m},
        "multivariate_normal_known_precision": {"mu": mu, "cov": m},
        "multivariate_normal_known_mean": {"nu": d + 1, "psi": m},
        "multivariate_normal": {"mu": mu, "kappa": 2.5, "nu": d + 1, "psi": m},
    }[s.name]


def big_known(s, d):
    m = V.pd_matrix(d, 2)
    return {
        "linear_regression": {},
        "multivariate_normal_known_covariance": {"cov": m},
        "multivariate_normal_known_precision": {"precision": m},
        "multivariate_normal_known_mean": {"mu": [0.5 * i - 1 for i in range(d)]},
        "multivariate_normal": {},
    }[s.name]


def big_obs(s, n, d, k=0):
    rows = V.pattern(n, d, k)
    if s.name == "linear_regression":
        return [(r, ((i * 7 + k) % 11) / 2 - 2) for i, r in enumerate(rows)]
    return rows


def run_big(u, ctx):
    s, d = V.MV[u["model"]], u["d"]
    for n, k in itertools.product(u["rows"], (0, 1)):
        pf, kn, obs = big_prior(s, d, k), big_known(s, d), big_obs(s, n, d, k)
        ctx.state((s.name, d, n, k))
        ctx.step()
        info = dict(model=s.name, d=d, rows=n, pattern=k)
        with ctx.guard(f"{s.name}:big", **info):
            post = V.call(s, s.prior(pf), obs, kn, d)
            bad = V.compare(s, post, s.expected(pf, obs, kn, d), s.mag(pf, obs, d))
            if bad:
                ctx.fail(f"{s.name}:big", f"{s.name}: {bad}"[:600], **info)
                continue
            ctx.trace()
    ctx.sample(**info)


LAYOUT = {
    "C": lambda a: np.ascontiguousarray(a),
    "F": lambda a: np.asfortranarray(a),
    "view": lambda a: np.repeat(np.repeat(a, 2, axis=0), 2, axis=-1)[::2, ..., ::2] if a.ndim == 2 else np.repeat(a, 2)[::2],
    "int": lambda a: a.astype(int),
    "float32": lambda a: a.astype(np.float32),
    "readonly": lambda a: (lambda b: (b.setflags(write=False), b)[1])(a.copy()),
    "object": lambda a: a,
    "int32": lambda a: a.astype(np.int32),
}


def run_layout(u, ctx):
    """one argument at a time and all arguments in another memory layout or dtype, with integer values"""
    s = V.MV[u["model"]]
    for d, n in itertools.product((1, 2, 3), (1, 2, 5)):
        pf = big_prior(s, d)
        kn = big_known(s, d)
        obs = [[(3 * i + 2 * j * i + j) % 7 - 2 for j in range(d)] for i in range(n)]
        if s.name == "linear_regression":
            obs = [(r, (5 * i) % 7 - 2) for i, r in enumerate(obs)]
        # integer-valued positive definite matrices so that every dtype holds them exactly
        ipd = [[(4 if i == j else ((i + j) % 3) - 1) for j in range(d)] for i in range(d)]
        imu = [i - 1 for i in range(d)]
        pf = {k: (ipd if k in ("cov", "psi", "delta_inverse") else imu if k == "mu" else v) for k, v in pf.items()}
        kn = {k: (ipd if k in ("cov", "precision") else imu) for k, v in kn.items()}
        args = s.args(obs, kn, d)
        exp, mag = s.expected(pf, obs, kn, d), s.mag(pf, obs, d)
        slots = [k for k, v in args.items() if isinstance(v, np.ndarray)] + ["prior"]
        for lay, f in LAYOUT.items():
            for which in [[x] for x in slots] + [slots]:
                if lay.startswith("int") and "x_bar" in which:
                    which = [w for w in which if w != "x_bar"]
                a = {k: (f(np.array(v, float)) if k in which else v) for k, v in args.items()}
                prior = s.prior(pf, form=lambda v: f(np.array(v, float))) if "prior" in which else s.prior(pf)
                ctx.state((s.name, d, n, lay, tuple(which)))
                ctx.step()
                info = dict(model=s.name, d=d, n=n, layout=lay, arguments=which)
                with ctx.guard(f"{s.name}:layout", **info):
                    post = getattr(V.M, s.name)(prior=prior, **a)
                    rtol = 1e-3 if lay == "float32" else 1e-8
                    bad = V.compare(s, post, exp, mag, rtol) if lay != "float32" else loose(s, post, exp)
                    if bad:
                        ctx.fail(f"{s.name}:layout", f"{s.name}: {bad}", **info)
                        continue
                    ctx.trace()
    ctx.sample(**info)


WIDE = [1e-6, 0.3, 0.7, 1, 2.0, 30, 101.5, 400, 1e5]
REPS = {
    "float": float,
    "int": int,
    "float64": np.float64,
    "int64": np.int64,
    "int32": np.int32,
    "0-d array": np.array,
}
SIZES = [0, 1, 2, 3, 7, 10, 31, 64, 99, 100, 101, 257, 1000, 9999, 10001, 65536, 10**6, 2**31 - 1]


def scalar_cases(s, d):
    """(prior fields, arguments, expected fields, mag) with scalars over a wide grid and in several representations"""
    if s.name in ("multivariate_normal_known_covariance", "multivariate_normal_known_precision"):
        for pf, kn, n in itertools.product(s.priors(d)[::2], s.knowns(d), SIZES):
            bar = [0.5, -2.0][:d] if n else [0.0] * d
            L0, L = ref.minv(ref.fmat(pf["cov"])), ref.minv(s.cov(kn))
            C = ref.minv(ref.madd(L0, ref.mscale(n, L)))
            rhs = [a + n * b for a, b in zip(ref.mv(L0, ref.fvec(pf["mu"])), ref.mv(L, ref.fvec(bar)))]
            exp = {"mu": ref.mv(C, rhs), "cov": C}
            for rep, f in REPS.items():
                if rep != "int32" or n < 2**31:
                    yield pf, {"n": f(n), "x_bar": np.array(bar), s.known: np.array(kn[s.known])}, exp, {}, (rep, n)
        return
    names = [k for k in s.fields if k in ("alpha", "beta", "kappa", "nu")]
    grids = [[d - 1 + v for v in WIDE] if k == "nu" else WIDE for k in names]
    atoms = s.atoms(d)
    for vals in itertools.product(*grids):
        for base, scale in ((s.priors(d)[-1], 1), (s.priors(d)[-2], 1e-3), (s.priors(d)[-1], 1e3)):
            pf = {**base, **dict(zip(names, vals))}
            for m in ("psi", "delta_inverse"):
                if m in pf:
                    pf[m] = (np.array(pf[m], float) * scale).tolist()
            kn = s.knowns(d)[-1]
            t = 1 if scale != 1 else (1e-4, 1, 1e3)[sum(map(int, vals)) % 3]  # units of the data
            up = lambda r: [v * t for v in r] if isinstance(r, list) else r * t
            obs = [atoms[1], atoms[2], atoms[2], atoms[0], atoms[-1]]
            obs = [tuple(map(up, o)) if isinstance(o, tuple) else up(o) for o in obs]
            exp, mag = s.expected(pf, obs, kn, d), s.mag(pf, obs, d)
            for which in ([], *[[k] for k in names], names):
                for rep, f in REPS.items():
                    if which and (rep != "float") and not (rep.startswith("int") and any(float(pf[k]) != int(pf[k]) for k in which)):
                        yield {**pf, **{k: f(pf[k]) for k in which}}, s.args(obs, kn, d), exp, mag, (rep, vals)
                if not which:
                    yield pf, s.args(obs, kn, d), exp, mag, ("plain", vals)


def run_scalars(u, ctx):
    s, d = V.MV[u["model"]], u["d"]
    for i, (pf, args, exp, mag, key) in enumerate(scalar_cases(s, d)):
        ctx.state((s.name, d, i))
        ctx.step()
        info = dict(model=s.name, d=d, prior=pf, args=args)
        with ctx.guard(f"{s.name}:scalars", **info):
            post = getattr(V.M, s.name)(prior=s.prior(pf), **args)
            bad = V.compare(s, post, exp, mag)
            if bad:
                ctx.fail(f"{s.name}:scalars", f"{s.name}: {bad}", **info)
                continue
            ctx.trace()
    ctx.sample(model=s.name, prior=pf, args=args)


def loose(s, post, exp):
    if type(post) is not s.cls:
        return f"returned {type(post).__name__}"
    for k, e in exp.items():
        e = np.asarray(ref.tofloat(e), float)
        g = np.asarray(getattr(post, k), float)
        if g.shape != e.shape or not np.allclose(g, e, rtol=2e-3, atol=2e-4 * (1 + np.abs(e).max())):
            return f"{k} = {g.tolist()} instead of {e.tolist()}"
