"""C12 marginals: every sequence of keys up to a depth on multivariate distributions, against exact marginals."""

import itertools
import math
from itertools import islice

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import mvspec as V
from mc import ref
from mc.spec import fields_of

ID = "C12"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all sequences of index operations up to a depth on the real objects, against exact marginals"
RULE = (
    "state = (class, dimension, parameters, sequence of keys applied); transition = one real indexing; in every state the class, "
    "the parameters and the density at points are those of the exact marginal of the coordinates selected, in that order; "
    "iteration yields the univariate marginals and ends; integers out of range raise; marginals of the regression predictive "
    "are the predictives of these rows"
)
ASSUMPTIONS = ["vector and matrix parameters are NumPy arrays", "keys select at least one coordinate; coordinates listed twice are judged by their parameters only (the joint density is singular)"]
BOUNDS = {
    "quick": "dimensions 1-5, 8 and 12; every permutation of every subset up to dimension 4 as list, array, mask and slice; integers of 9 kinds; sequences of up to 3 keys",
    "thorough": "every permutation of every subset up to dimension 5, sequences of up to 4 keys, dimensions up to 40",
}

INTS = [int, np.int64, np.int32, np.int16, np.int8, np.uint8, np.uint64, np.intp]


def units(tier):
    dims = [1, 2, 3, 4, 5, 8, 12] if tier == "quick" else [1, 2, 3, 4, 5, 6, 8, 12, 20, 40]
    out = []
    for cls in ("MultivariateNormal", "MultivariateStudentT"):
        for d in dims:
            for k in range(3):
                out.append({"kind": "marginal", "cls": cls, "d": d, "k": k, "depth": 3 if tier == "quick" else 4, "perm": 4 if tier == "quick" else 5})
    for d in (1, 2, 3):
        out.append({"kind": "predictive", "d": d})
    return out


def run(u, ctx):
    {"marginal": run_marginal, "predictive": run_predictive}[u["kind"]](u, ctx)


def keys(d, perm, deep):
    """name -> (key, coordinates)"""
    idx = list(range(d))
    out = {}

    def add(name, key):
        sel = np.arange(d)[key]
        if np.size(sel):
            out[name] = (key, sel)

    for i in range(-d, d):
        for t in INTS if not deep else INTS[:2]:
            if i >= 0 or not np.issubdtype(t, np.unsignedinteger):
                add(f"{t.__name__}({i})", t(i))
    sl = [None, *range(-d - 1, d + 2)] if d <= 5 and not deep else [None, 1, -1, d - 1, 0]
    for a, b, c in itertools.product(sl, sl, (None, 1, 2, -1, -2)):
        add(f"[{a}:{b}:{c}]", slice(a, b, c))
    if d <= perm and not deep:
        for r in range(1, d + 1):
            for p in itertools.permutations(idx, r):
                add(f"list{p}", list(p))
                add(f"array{p}", np.array(p))
                add(f"neg{p}", [i - d for i in p])
                if r == 1 or p[0] > p[-1]:
                    add(f"mixed{p}", [p[0] - d, *p[1:]])
                    add(f"np{p}", [np.int64(i) for i in p])
                    add(f"i32{p}", np.array(p, np.int32))
        for p in itertools.chain.from_iterable(itertools.product(idx, repeat=r) for r in (2, 3)):
            if len(set(p)) < len(p):  # a coordinate listed twice
                add(f"twice{p}", list(p))
                add(f"arraytwice{p}", np.array(p))
        for m in itertools.product([True, False], repeat=d):
            add(f"mask{m}", np.array(m))
            add(f"masklist{m}", list(m))
    else:
        for p in (idx, idx[::-1], idx[:1], idx[-1:], idx[1::2] + idx[::2], idx[::3], [d - 1, 0], [-1, 0], idx[1:] + idx[:1]):
            add(f"list{p}", list(p))
            add(f"array{p}", np.array(p))
        for i in range(d):
            add(f"mask-{i}", np.arange(d) != i)
            add(f"maskup{i}", [j >= i for j in idx])
    add("...", Ellipsis)
    return out


def run_marginal(u, ctx):
    d, k, cls = u["d"], u["k"], u["cls"]
    t = cls == "MultivariateStudentT"
    mu = np.array([((7 * i + 3 * k) % 11) / 2 - 2.25 for i in range(d)])
    C = np.array(V.pd_matrix(d, k), float) * (0.25 if k == 1 else 2)
    if k == 2:  # integers and a large spread
        mu = np.array([(5 * i) % 7 - 3 for i in range(d)])
        s = 10.0 ** (np.arange(d) % 4 - 1)
        C = C * np.outer(s, s)
    nu = [3, 0.5, 40][k]
    mat = "sigma" if t else "cov"
    f = {"mu": mu.copy(), mat: C.copy(), **({"nu": nu} if t else {})}
    obj = getattr(D, cls)(**f)
    full = keys(d, u["perm"], False)

    def expect(res, sel, info):
        if np.ndim(sel) == 0:
            want = (D.StudentT if t else D.Normal).__name__
            ok = type(res).__name__ == want and ref.allclose([float(res.mu), float(res.sigma)], [float(mu[sel]), math.sqrt(C[sel, sel])]) and np.ndim(res.mu) == 0 and np.ndim(res.sigma) == 0
            if ok and t:
                ok = float(res.nu) == nu
            if not ok:
                ctx.fail(f"{cls}:univariate", f"coordinate {sel}: {res!r} instead of location {mu[sel]}, variance {C[sel, sel]}", **info)
                return False
            for z in (-1.5, 0, 2.0):
                x = float(mu[sel] + z * math.sqrt(C[sel, sel]))
                w = ref.student_t(x, nu, float(mu[sel]), C[sel, sel]) if t else ref.normal(x, float(mu[sel]), C[sel, sel])
                ctx.eval()
                if not ref.close(float(res.dist.logpdf(x)), w):
                    ctx.fail(f"{cls}:density", f"log density of the marginal at {x} is {res.dist.logpdf(x)} instead of {w}", **info)
                    return False
            return True
        if type(res).__name__ != cls:
            ctx.fail(f"{cls}:joint", f"{type(res).__name__} instead of {cls}", **info)
            return False
        S = C[np.ix_(sel, sel)]
        got = fields_of(res)
        if np.shape(got["mu"]) != (len(sel),) or np.shape(got[mat]) != (len(sel), len(sel)) or not np.array_equal(got["mu"], mu[sel]) or not ref.allclose(np.ravel(got[mat]), np.ravel(S)) or (t and float(got["nu"]) != nu):
            ctx.fail(f"{cls}:joint", f"coordinates {sel}: {res!r}"[:400], **info)
            return False
        return True

    def density(res, sel, info):
        S = C[np.ix_(sel, sel)]
        for z in (0.0, 0.5, -1.25):
            x = mu[sel] + z * np.sqrt(np.diag(S)) * (-1.0) ** np.arange(len(sel))
            w = ref.mvt(x, nu, mu[sel], S) if t else ref.mvn(x, mu[sel], S)
            ctx.eval()
            if not ref.close(float(np.squeeze(res.dist.logpdf(x))), w, 1e-8):
                ctx.fail(f"{cls}:density", f"log density of coordinates {sel} at {x} is {res.dist.logpdf(x)} instead of {w}", **info)
                return False
        return True

    def dfs(o, pos, path):
        for kn, (key, sel) in (full if not path else keys(len(pos), u["perm"], True)).items():
            p = path + (kn,)
            s = pos[sel]
            ctx.state(p)
            ctx.step()
            info = dict(cls=cls, d=d, mu=mu, matrix=C, nu=nu if t else None, keys=p)
            with ctx.guard(f"{cls}:index", **info):
                res = o[key]
                if not expect(res, s, info):
                    continue
                if np.ndim(s) and len(p) <= 1 + (d <= 3) and len(set(s.tolist())) == len(s) and not density(res, s, info):
                    continue
                ctx.trace()
                # go on from lists, masks and slices that change the order or the size
                if np.ndim(s) and len(p) < u["depth"] and len(s) <= 4 and (len(p) == 1 and kn[0] in "la" and d <= 4 or kn in ("[None:None:-1]", "[1:None:None]", "[None:None:2]")):
                    dfs(res, s, p)
        n = len(pos)
        for bad in (n, n + 1, -n - 1, np.int64(n), np.int32(-n - 1), [n], [0, n], np.array([-n - 1]), np.ones(n + 1, bool)):
            try:
                res = o[bad]
            except Exception:
                continue
            ctx.fail(f"{cls}:out-of-range", f"key {bad!r} on {n} coordinates returned {res!r}"[:300], keys=path)

    dfs(obj, np.arange(d), ())
    info = dict(cls=cls, d=d)
    with ctx.guard(f"{cls}:iteration", **info):
        got = list(islice(iter(obj), d + 3))
        if len(got) != d:
            ctx.fail(f"{cls}:iteration", f"iterating over {d} coordinates gives {len(got)}", **info)
        else:
            for i, e in enumerate(got):
                expect(e, np.int64(i), info)
    if not all(np.array_equal(fields_of(obj)[n], v) for n, v in {"mu": mu, mat: C}.items()):
        ctx.fail(f"{cls}:changed", "indexing changed the original", **info)
    ctx.sample(cls=cls, d=d, keys=list(full)[:: max(1, len(full) // 20)])


def run_predictive(u, ctx):
    """the regression predictive of several rows has the predictives of these rows as its marginals"""
    d = u["d"]
    rows = V.ROWS[d]
    for pf in V.LinReg.priors(d):
        prior = V.LinReg.prior(pf)
        for r in range(2, len(rows) + 1):
            for sub in itertools.permutations(range(len(rows)), r):
                X = np.array([rows[i] for i in sub], float)
                ctx.state((repr(pf), sub))
                ctx.step()
                info = dict(prior=pf, X=X)
                with ctx.guard("predictive", **info):
                    whole = M.linear_regression_predictive(distribution=prior, X=X)
                    for i in range(r):
                        one = M.linear_regression_predictive(distribution=prior, X=X[i : i + 1])
                        m = whole[i]
                        if not ref.allclose([float(m.mu), float(m.sigma) ** 2, float(m.nu)], [float(one.mu[0]), float(one.sigma[0, 0]), float(one.nu)]):
                            ctx.fail("predictive:marginal", f"row {i}: {m!r} instead of {one!r}", **info)
                    for key in ([0, r - 1], slice(1, None), np.arange(r) != 0, [r - 1, 0]):
                        part, sel = whole[key], np.arange(r)[key]
                        want = M.linear_regression_predictive(distribution=prior, X=X[sel])
                        if not (ref.allclose(part.mu, want.mu) and ref.allclose(np.ravel(part.sigma), np.ravel(want.sigma))):
                            ctx.fail("predictive:joint", f"rows {sel}: {part!r} instead of {want!r}"[:400], **info)
                    ctx.trace()
    ctx.sample(d=d, rows=rows)
