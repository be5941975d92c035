"""C09 scaling and adding: every expression of factors and sums up to a depth has the law of the corresponding sum."""

import itertools
import math
from fractions import Fraction

import numpy as np
from scipy import integrate

from conjugate import distributions as D
from mc import lattice as L
from mc import ref
from mc.spec import fields_of

ID = "C09"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all scaling / adding expressions up to a depth on the real operators, against the exact law of the sum"
RULE = (
    "state = (start distribution, sequence of operations k*d, d*k, d+e, e+d applied); transition = one real operation on the "
    "object returned by the previous one; in every state density and cumulative probability of the result are compared with "
    "the exact law of the sum at points around its bulk, at every position of array parameters and factors, and the operands "
    "with their values before"
)
ASSUMPTIONS = ["float results agree with the exact law within 1e-8 in log density"]
BOUNDS = {
    "quick": "all expressions of up to 3 operations over 9 factors and 3 addends from every start (2 for arrays)",
    "thorough": "all expressions of up to 4 operations over 12 factors (3 for arrays)",
}

STARTS = {
    "Poisson": [{"lam": v} for v in (0.0, 0.01, 0.5, 1, 3.25, 40)],
    "Gamma": [{"alpha": a, "beta": b} for a, b in itertools.product((0.5, 1, 7.25, 300), (0.01, 1, 3, 250.0))],
    "NegativeBinomial": [{"n": n, "p": p} for n, p in itertools.product((0.5, 1, 3, 20), (0.05, 0.5, 0.9, 1))],
    "Exponential": [{"lam": v} for v in (0.01, 0.5, 1, 3, 250.0)],
    "Normal": [{"mu": m, "sigma": s} for m, s in itertools.product((-30, -1, 0, 0.5, 20.25), (0.1, 1, 2, 300))],
}
FACTORS = [1, 2, 3, 7, 0.5, 1.0, 2.5, np.int64(4), np.float64(0.25)]
MORE = [1000, 1e-3, np.float32(1.5)]
ARRAYS = {
    "a3": np.array([1.0, 2.0, 0.5]), "i3": np.array([2, 3, 1]), "zero-d": np.array(2.5), "c2": np.array([[1.0], [4.0]]), "m23": np.array([[1.0, 2, 3], [0.5, 5, 10]]),
    "one": np.array([3.0]), "f32": np.array([0.5, 2, 8], np.float32),
}


def law(cls, f, k):
    """(log density, cdf or None, mean, sd) of the sum of k copies"""
    k = float(k)
    if cls == "Poisson":
        m = f["lam"] * k
        return (lambda x: ref.poisson(x, m)), m, math.sqrt(m)
    if cls in ("Gamma", "Exponential"):
        a, b = (f["alpha"] * k, f["beta"]) if cls == "Gamma" else (k, f["lam"])
        return (lambda x: ref.gamma(x, a, b)), a / b, math.sqrt(a) / b
    if cls == "NegativeBinomial":
        n, p = f["n"] * k, f["p"]
        return (lambda x: ref.neg_binomial(x, n, p)), n * (1 - p) / p, math.sqrt(n * (1 - p)) / p
    m, v = f["mu"] * k, f["sigma"] ** 2 * k
    return (lambda x: ref.normal(x, m, v)), m, math.sqrt(v)


DISCRETE = ("Poisson", "NegativeBinomial")


def points(cls, mean, sd):
    if cls in DISCRETE:
        b = math.floor(mean)
        return sorted({0, 1, 2, 5, max(0, math.floor(mean - sd)), b, b + 1, math.ceil(mean + sd), math.ceil(mean + 3 * sd)})
    out = [mean - 2 * sd, mean - 0.5 * sd, mean, mean + sd, mean + 3 * sd]
    return out if cls == "Normal" else [x for x in out if x > 0] + [mean / 3, mean / 50]


def size(cls, f, k, x):
    """magnitude of the terms of the log density"""
    if cls == "Normal":
        return 1 + ((x - f["mu"] * k) ** 2 + (abs(x) + abs(f["mu"]) * k) * abs(x - f["mu"] * k)) / (f["sigma"] ** 2 * k)
    a = {"Poisson": lambda: f["lam"] * k, "Gamma": lambda: f["alpha"] * k + f["beta"] * x, "Exponential": lambda: k + f["lam"] * x,
         "NegativeBinomial": lambda: f["n"] * k}[cls]()
    a += x if cls in DISCRETE else 0
    return (1 + a) * (1 + abs(math.log(1 + a)) + abs(math.log(x)) * (x > 0) if x > 0 else 1 + abs(math.log(1 + a)))


def logdens(dist, x, discrete):
    return np.asarray(dist.logpmf(x) if discrete else dist.logpdf(x), float)


def same(a, b):
    return type(a) is type(b) and np.shape(a) == np.shape(b) and bool(np.all(np.asarray(a == b)))


def snap(f):
    return {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in f.items()}


def units(tier):
    out = []
    for cls, starts in STARTS.items():
        for c in L.chunks(range(len(starts)), 4 if tier == "quick" else 2):
            out.append({"kind": "tree", "cls": cls, "starts": c, "depth": 3 if tier == "quick" else 4, "more": tier != "quick"})
        out.append({"kind": "arrays", "cls": cls, "depth": 2 if tier == "quick" else 3})
        out.append({"kind": "types", "cls": cls})
    out.append({"kind": "oracle"})
    out.append({"kind": "add"})
    return out


def run(u, ctx):
    {"tree": run_tree, "arrays": run_arrays, "types": run_types, "oracle": run_oracle, "add": run_add}[u["kind"]](u, ctx)


def judge(ctx, cls, res, f, k, info, shape=(), tol=1e-14):
    """the law of res is that of the sum of k copies of cls(f), at every position"""
    disc = cls in DISCRETE
    with ctx.guard(f"{cls}:evaluation", **info):
        dist = res.dist
        fb = {n: np.broadcast_to(np.asarray(v, float), shape) for n, v in f.items()}
        kb = np.broadcast_to(np.asarray(k, float), shape)
        for idx in np.ndindex(shape):
            lg, mean, sd = law(cls, {n: float(v[idx]) for n, v in fb.items()}, kb[idx])
            xs = points(cls, mean, sd)
            if shape == ():
                gots = logdens(dist, np.array(xs), disc)
                if np.shape(gots) != (len(xs),):
                    ctx.fail(f"{cls}:shape", f"{len(xs)} points give a result of shape {np.shape(gots)}", **info)
                    return False
            else:
                gots = [np.broadcast_to(logdens(dist, x, disc), shape)[idx] for x in xs]
            ctx.eval(len(xs))
            for x, got in zip(xs, gots):
                want = lg(x)
                # rounding of the terms of the log density, in the precision of the parameters
                slack = 1e-8 * (1 + abs(want)) + tol * size(cls, {n: float(v[idx]) for n, v in fb.items()}, float(kb[idx]), x)
                if not (got == want or abs(got - want) <= slack):
                    ctx.fail(f"{cls}:law", f"log density at {x} is {got} instead of {want} for the sum of {kb[idx]} copies", position=idx, **info)
                    return False
    return True


def apply(op, obj):
    side, k = op
    if side == "L":
        return k * obj
    if side == "R":
        return obj * k
    other = D.Poisson(lam=k)
    return obj + other if side == "+" else other + obj


def run_tree(u, ctx):
    cls = u["cls"]
    ks = FACTORS + (MORE if u["more"] else [])
    for i in u["starts"]:
        f = STARTS[cls][i]

        def dfs(obj, path, lam, k):
            # alternate sides deeper down; both sides for the first two operations
            sides = ("L", "R") if len(path) < 2 else ("L" if len(path) % 2 else "R",)
            ops = [(s, x) for x in (ks if len(path) < 2 else ks[:5]) for s in sides]
            if cls == "Poisson":
                ops += [("+", 0.5), ("+", 2), ("r+", 7.25)]
            for op in ops:
                p = path + (op,)
                ctx.state((cls, i, tuple((a, repr(b)) for a, b in p)))
                ctx.step()
                info = dict(cls=cls, start=f, operations=[(a, repr(b)) for a, b in p])
                before = snap(fields_of(obj))
                with ctx.guard(f"{cls}:operation", **info):
                    res = apply(op, obj)
                    if not all(same(v, before[n]) for n, v in fields_of(obj).items()):
                        ctx.fail(f"{cls}:operand-changed", "the operand changed", before=before, after=fields_of(obj), **info)
                    if op[0] in "LR":
                        lam2, k2 = lam * Fraction(float(op[1])), k * Fraction(float(op[1]))
                    else:
                        lam2, k2 = lam + Fraction(op[1]), k
                    tol = 1e-6 if any(isinstance(q[1], np.float32) for q in p) else 1e-14
                    ff, kk = ({"lam": float(lam2)}, 1) if cls == "Poisson" else (f, k2)
                    if not judge(ctx, cls, res, ff, kk, info, tol=tol):
                        continue
                    ctx.trace()
                    if len(p) < u["depth"] and hasattr(res, "__mul__"):
                        dfs(res, p, lam2, k2)
                    elif not hasattr(res, "__mul__"):
                        ctx.fail(f"{cls}:not-scalable", f"{type(res).__name__} cannot be scaled any further", **info)

        obj = getattr(D, cls)(**f)
        dfs(obj, (), Fraction(f.get("lam", 0)) if cls == "Poisson" else Fraction(0), Fraction(1))
        ctx.sample(cls=cls, start=f, depth=u["depth"])


VECS = {
    "Poisson": {"lam": [0.5, 2.0, 40.0]},
    "Gamma": {"alpha": [0.5, 2.0, 40.0], "beta": [1.0, 0.25, 3]},
    "NegativeBinomial": {"n": [0.5, 2.0, 40.0], "p": [0.25, 0.5, 0.9]},
    "Exponential": {"lam": [0.5, 2.0, 40.0]},
    "Normal": {"mu": [-3.0, 0, 2.5], "sigma": [1.0, 0.25, 30]},
}


def vec_starts(cls):
    v = VECS[cls]
    names = list(v)
    out = [{n: np.array(v[n]) for n in names}]
    out.append({n: np.array(v[n])[:, None][:2] for n in names})
    out.append({n: np.array(v[n][:1]) for n in names})
    if len(names) > 1:
        out.append({names[0]: np.array(v[names[0]]), names[1]: v[names[1]][0]})
        out.append({names[0]: v[names[0]][0], names[1]: np.array(v[names[1]])})
        out.append({names[0]: np.array(v[names[0]])[:2, None], names[1]: np.array(v[names[1]])})
    out.append({n: v[n][1] for n in names})
    out.append({n: np.array([1, 2, 5]) for n in names} if cls != "NegativeBinomial" else {"n": np.array([1, 2, 5]), "p": 0.5})
    return out


def run_arrays(u, ctx):
    cls = u["cls"]
    for si, f in enumerate(vec_starts(cls)):

        def dfs(obj, path, k):
            for (an, a), side in itertools.product(list(ARRAYS.items()) + [("2", 2), ("2.5", 2.5)], "LR"):
                try:
                    k2 = k * np.asarray(a, float)
                    shape = np.broadcast_shapes(np.shape(k2), *[np.shape(v) for v in f.values()])
                except ValueError:
                    continue
                p = path + ((side, an),)
                ctx.state((cls, si, p))
                ctx.step()
                info = dict(cls=cls, start=f, operations=p, factor=a)
                before, fac = snap(fields_of(obj)), np.array(a)
                with ctx.guard(f"{cls}:array-operation", **info):
                    res = a * obj if side == "L" else obj * a
                    if not hasattr(res, "dist"):
                        ctx.fail(f"{cls}:array-result", f"the result is a {type(res).__name__}, not a distribution", **info)
                        continue
                    if not all(same(v, before[n]) for n, v in fields_of(obj).items()) or not np.array_equal(fac, a):
                        ctx.fail(f"{cls}:operand-changed", "an operand changed", before=before, after=fields_of(obj), **info)
                    if not judge(ctx, cls, res, f, k2, info, shape, tol=1e-6 if any(q[1] == "f32" for q in p) else 1e-14):
                        continue
                    ctx.trace()
                    if len(p) < u["depth"]:
                        dfs(res, p, k2)

        dfs(getattr(D, cls)(**f), (), np.float64(1))
    ctx.sample(cls=cls, starts=len(vec_starts(cls)))


def run_types(u, ctx):
    """representations of parameters and factors; factors up to a million; a convolution power of zero of a count is zero"""
    cls = u["cls"]
    reps = [lambda v: v, float, np.float64, np.int64, lambda v: np.array(float(v)), Fraction, np.int32, np.uint8, np.float32]
    for f in [{n: v for n, v in zip(fields_of(getattr(D, cls)(*[1, 2][: len(VECS[cls])])), vals)} for vals in ((1, 2), (3, 1), (7, 4))]:
        if cls == "NegativeBinomial":
            f = {**f, "p": 1 / f["p"]}
        for rp, rk in itertools.product(range(len(reps)), repeat=2):
            for k, side in itertools.product((1, 2, 5), "LR"):
                kk = reps[rk](k)
                ff = {n: (reps[rp](v) if v == int(v) else v) for n, v in f.items()}
                if any(isinstance(v, Fraction) for v in (*ff.values(), kk)):
                    if any(isinstance(v, (np.generic, np.ndarray)) for v in (*ff.values(), kk)):
                        continue  # fractions do not mix with NumPy numbers
                ctx.state((cls, rp, rk, k, side, repr(f)))
                ctx.step()
                info = dict(cls=cls, start=ff, factor=kk, types=[type(v).__name__ for v in (*ff.values(), kk)], side=side)
                with ctx.guard(f"{cls}:types", **info):
                    obj = getattr(D, cls)(**ff)
                    res = kk * obj if side == "L" else obj * kk
                    got = fields_of(res)
                    res = type(res)(**{n: float(v) for n, v in got.items()})
                    if judge(ctx, cls, res, f, k, info, tol=1e-6):
                        ctx.trace()
    for f in STARTS[cls][:: 3]:
        for k in (10, 64, 100, 101, 255, 256, 1000, 10_000, 65_536, 10**6, 1e-2, 1e-4, 0.999, 1.001, math.pi):
            ctx.state((cls, "big", repr(f), k))
            ctx.step()
            info = dict(cls=cls, start=f, factor=k)
            with ctx.guard(f"{cls}:factor", **info):
                if judge(ctx, cls, getattr(D, cls)(**f) * k, f, k, info) and judge(ctx, cls, k * getattr(D, cls)(**f), f, k, info):
                    ctx.trace()
    if cls in ("Poisson", "NegativeBinomial"):
        z = getattr(D, cls)(**STARTS[cls][3])
        if cls == "Poisson":
            with ctx.guard(f"{cls}:zero"):
                if float((z * 0).dist.pmf(0)) != 1.0:
                    ctx.fail(f"{cls}:zero", "the sum of no copies is not zero")
    # distributivity: k d + j d == (k + j) d, for all pairs
    if cls == "Poisson":
        for f, k, j in itertools.product(STARTS[cls], FACTORS[:7], FACTORS[:7]):
            d = D.Poisson(**f)
            info = dict(start=f, k=k, j=j)
            with ctx.guard("Poisson:distributivity", **info):
                ctx.step(3)
                for r in (k * d + j * d, d * k + d * j, (k + j) * d):
                    judge(ctx, cls, r, {"lam": f["lam"] * (k + j)}, 1, info)
    ctx.sample(cls=cls)


def run_add(u, ctx):
    """sums of Poisson distributions of all shapes, both orders, sums of sums, the same object twice, subclasses of parameters"""
    vals = {
        "s": 1.5, "i": 2, "np": np.float64(0.25), "z": np.array(4.0), "v": np.array([0.5, 2.0, 7.0]), "iv": np.array([1, 2, 3]),
        "c": np.array([[0.5], [3.0]]), "m": np.array([[1.0, 2, 3], [4, 5, 60]]), "one": np.array([2.5]),
        "zero": 0.0, "zeros": np.array([0.0, 2.0, 0.0]),
    }
    for names in itertools.chain(itertools.product(vals, repeat=2), itertools.product(vals, repeat=3)):
        arrs = [vals[n] for n in names]
        total = sum(np.asarray(a, float) for a in arrs)
        ds = {n: D.Poisson(lam=vals[n]) for n in names}  # equal names are the same object
        forms = [lambda d: d[0] + d[1]] if len(names) == 2 else [lambda d: (d[0] + d[1]) + d[2], lambda d: d[0] + (d[1] + d[2])]
        for fi, form in enumerate(forms):
            ctx.state((names, fi))
            ctx.step(len(names) - 1)
            info = dict(addends=[vals[n] for n in names], grouping=fi)
            before = {n: snap(fields_of(d)) for n, d in ds.items()}
            with ctx.guard("Poisson:add", **info):
                res = form([ds[n] for n in names])
                for n, d in ds.items():
                    if not same(fields_of(d)["lam"], before[n]["lam"]):
                        ctx.fail("Poisson:operand-changed", "an addend changed", **info)
                if judge(ctx, "Poisson", res, {"lam": total}, 1, info, np.shape(total)):
                    ctx.trace()
    ctx.sample(addends=list(vals))


def run_oracle(u, ctx):
    """the closed forms of the sums, against brute-force convolution"""
    for cls in DISCRETE:
        for f in STARTS[cls][:: 2]:
            one = np.array([math.exp(law(cls, f, 1)[0](x)) for x in range(80)])
            acc = one
            for k in (2, 3, 4):
                acc = np.convolve(acc, one)[:80]
                lg = law(cls, f, k)[0]
                ctx.eval(80, key=(cls, repr(f), k))
                if not np.allclose(acc, [math.exp(lg(x)) for x in range(80)], rtol=1e-9, atol=1e-300):
                    ctx.fail("oracle", "closed form and convolution differ", cls=cls, start=f, k=k)
    for cls, f in (("Gamma", {"alpha": 1.5, "beta": 2}), ("Exponential", {"lam": 0.5}), ("Normal", {"mu": 1, "sigma": 2})):
        for k in (1, 2, 3):
            g1, gk, lg = law(cls, f, 1)[0], law(cls, f, k)[0], law(cls, f, k + 1)[0]
            _, m, s = law(cls, f, k + 1)
            for x in points(cls, m, s):
                lo, hi = (-40, 40) if cls == "Normal" else (0, x)
                got = integrate.quad(lambda t: math.exp(g1(t) + gk(x - t)) if cls == "Normal" or 0 < t < x else 0.0, lo, hi, points=[m / 2] if cls == "Normal" else None, limit=200)[0]
                ctx.eval(key=(cls, k, x))
                if abs(got - math.exp(lg(x))) > 1e-6 * (1 + got):
                    ctx.fail("oracle", "closed form and convolution differ", cls=cls, start=f, k=k, got=got, want=math.exp(lg(x)))
