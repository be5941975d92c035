"""C19 joint samplers: every answer of the random source, so that the law of the output is computed and not sampled."""

import inspect
import itertools
import math
import warnings

import numpy as np
from scipy import special as sp

from conjugate import distributions as D
from conjugate import models as M
from mc.script import Scripted, TooMany, Unscripted, explore

ID = "C19"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of every answer of a scripted random source (quadrature nodes of each requested law), computing the exact law of the sampler's output"
RULE = (
    "state = (class, parameters, method, size, plan of answers); transition = one real sampling call with one combination of answers; the weights of "
    "the answers give the exact law of the result: the variance's moments and distribution function, the mean given each returned variance "
    "(moments up to the fourth), and the independence of all rows"
)
ASSUMPTIONS = [
    "the generator's own laws are right (each requested law is replaced by its Gauss quadrature, exact for polynomials up to the order used)",
    "where the result is not polynomial in the draws the law is compared within four times the change from doubling the number of nodes",
    "sizes of one or more; a way of drawing that the scripted source does not know leaves the law undecided (counted in the evidence, reported as nothing)",
]
BOUNDS = {
    "quick": "4 classes, dimensions 1-3, 60 parameter sets, sizes 1-4 with all answers (as many rows as 8 draws allow, at least 2); sizes up to 50 for shapes; for one parameter set of each class and dimension sizes 7, 17, 65 with every single answer changed and all answers of four rows",
    "thorough": "the same with more nodes and sizes up to 6; single changes for nine sizes up to 129 and all parameter sets",
}

S2 = np.array([[2.0, 0.5], [0.5, 1.0]])
S2n = np.array([[0.5, -0.45], [-0.45, 3.0]])
S3 = np.array([[2.0, 0.5, -0.25], [0.5, 1.0, 0.75], [-0.25, 0.75, 4.0]])


def configs():
    """(class, parameters) with simple ones first"""
    out = []
    for mu, nu, a, b in [(0.0, 1.0, 3.0, 2.0), (1.5, 0.25, 2.5, 4.0), (-3.0, 0.5, 1.0, 1.0), (10, 6, 30, 7), (0, 0.01, 0.5, 0.25), (2.5, 100.0, 5.0, 0.01), (1e3, 2, 1, 50), (-0.5, 0.9, 1.1, 1.0), (0.0, 1.0, 0.9, 3.0),
                         (4.0, 2.0, 2.0, 2.0), (0.25, 7, 100.5, 80.0)]:
        out.append(("NormalInverseGamma", dict(mu=mu, nu=nu, alpha=a, beta=b)))
        out.append(("NormalGamma", dict(mu=mu, lam=nu, alpha=a, beta=b)))
    out.append(("NormalInverseGamma", dict(mu=np.float64(1.5), nu=np.int64(2), alpha=np.float64(3.0), beta=np.float32(2.0))))
    out.append(("NormalGamma", dict(mu=np.array(1.5), lam=np.int64(2), alpha=np.array(3.0), beta=np.float32(2.0))))
    for mu, di, a, b in [([0.5], [[2.0]], 3.0, 2.0), ([0.5], [[0.25]], 1.0, 2.0), ([0.5, -1.0], np.eye(2), 3.0, 2.0), ([0.5, -1.0], S2, 2.5, 4.0), ([3, 7], [[1, 0], [0, 4]], 2, 3), ([0.0, 0.0], S2n, 0.75, 0.5),
                         ([10.0, 0.0], S2 * 0.01, 30.0, 80.0), ([1.0, 2.0, -3.0], S3, 3.0, 1.5), ([1.0, 2.0, -3.0], np.diag([0.1, 1.0, 10.0]), 1.0, 1.0)]:
        out.append(("NormalInverseGamma", dict(mu=np.array(mu), delta_inverse=np.array(di), alpha=a, beta=b)))
    for cls, c, s in (("NormalInverseWishart", "kappa", "psi"), ("NormalWishart", "lam", "W")):
        for mu, k, nu, m in [([0.5], 1.0, 3.0, [[2.0]]), ([0.5], 0.25, 1, [[3.0]]), ([0.5, -1.0], 1.0, 4.0, np.eye(2)), ([0.5, -1.0], 2.0, 3.5, S2), ([0.5, -1.0], 0.1, 2, S2n), ([3, 7], 3, 5, [[1, 0], [0, 4]]),
                             ([100.0, 0.0], 50.0, 30.0, S2 * 10), ([1.0, 2.0, -3.0], 0.5, 4.5, S3)]:
            out.append((cls, {"mu": np.array(mu), c: k, "nu": nu, s: np.array(m)}))
    return out


def posteriors():
    """objects as the models return them"""
    X = np.array([[1.0, 2.0], [0.5, -1.0], [3.0, 0.25]])
    nig = D.NormalInverseGamma
    return {
        "normal": M.normal(x_total=3.5, x2_total=20.0, n=4, prior=nig(mu=0.0, nu=1.0, alpha=3.0, beta=2.0)),
        "normal gamma": M.normal(x_total=3.5, x2_total=20.0, n=4, prior=D.NormalGamma(mu=0, lam=1, alpha=3, beta=2)),
        "log normal": M.log_normal(ln_x_total=3.5, ln_x2_total=20.0, n=4, prior=nig(mu=0.0, nu=1.0, alpha=3.0, beta=2.0)),
        "regression": M.linear_regression(X=X, y=np.array([1.0, 2.0, 0.5]), prior=nig(mu=np.zeros(2), delta_inverse=S2, alpha=3.0, beta=2.0)),
        "regression of one": M.linear_regression(X=X[:, :1], y=np.array([1.0, 2.0, 0.5]), prior=nig(mu=np.zeros(1), delta_inverse=np.eye(1), alpha=3.0, beta=2.0)),
        "multivariate": M.multivariate_normal(X=X, prior=D.NormalInverseWishart(mu=np.zeros(2), kappa=1, nu=4, psi=S2)),
        "multivariate of one": M.multivariate_normal(X=X[:, :1], prior=D.NormalInverseWishart(mu=np.zeros(1), kappa=1, nu=4, psi=np.eye(1))),
    }


CONFIGS = configs()
LONG, LONG_MORE = (7, 17, 65), (7, 9, 11, 16, 21, 33, 51, 65, 129)


def units(tier):
    out = [{"kind": "law", "config": i} for i in range(len(CONFIGS))]
    out += [{"kind": "law", "posterior": k} for k in posteriors()]
    out += [{"kind": "shapes", "config": i} for i in range(len(CONFIGS))]
    out += [{"kind": "shapes", "posterior": k} for k in posteriors()]
    if tier == "quick":
        seen = {}
        for i, (c, f) in enumerate(CONFIGS):
            seen.setdefault((c, np.size(f["mu"]), "delta_inverse" in f), []).append(i)
        few = [i for same in seen.values() for i in same[1:2] or same[:1]]  # one of each class and dimension
        longs = [(i, n) for n in LONG for i in few]
    else:
        longs = [(i, n) for n in LONG_MORE for i in range(len(CONFIGS))]
    out += [{"kind": "long", "config": i, "size": n} for i, n in sorted(longs, key=lambda x: -x[1])]
    out += [{"kind": "long", "posterior": k, "size": LONG[0]} for k in posteriors()]
    return out


def obj_of(u):
    if "posterior" in u:
        return posteriors()[u["posterior"]]
    c, f = CONFIGS[u["config"]]
    return getattr(D, c)(**f)


class Law:
    """what the documentation says about one object"""

    def __init__(self, o):
        self.cls = type(o).__name__
        self.mu = np.atleast_1d(np.asarray(o.mu, float)).ravel()
        self.d = self.mu.size
        if self.cls == "NormalInverseGamma":
            self.a, self.b = float(o.alpha), float(o.beta)
            self.factor = np.array([[1 / float(o.nu)]]) if o.delta_inverse is None else np.asarray(o.delta_inverse, float)
            self.scalar = o.delta_inverse is None
        elif self.cls == "NormalGamma":
            self.a, self.b, self.factor, self.scalar = float(o.alpha), float(o.beta), np.array([[1 / float(o.lam)]]), True
        else:
            self.a = None
            self.nu = float(o.nu)
            inv = self.cls == "NormalInverseWishart"
            self.S = np.linalg.inv(np.asarray(o.psi, float)) if inv else np.asarray(o.W, float)
            self.factor = 1 / float(o.kappa if inv else o.lam)
            self.scalar = False
        self.methods = ["sample_mean", "sample_beta"] if hasattr(o, "sample_beta") else ["sample_mean"]

    def cov(self, v):
        """covariance of the mean given the variance returned with it"""
        return v * self.factor

    def functionals(self, v):
        """functions of one variance with known expectation"""
        if self.a is not None:
            p = 1 / v
            F = sp.gammaincc(self.a, self.b * p)
            return [p, p * p, p**3, p**4, F, F * F, F**3]
        m = np.linalg.inv(v)
        i = np.triu_indices(self.d)
        q = m[i]
        return [*q, *(x * y for x, y in itertools.combinations_with_replacement(q, 2))]

    def expectations(self):
        if self.a is not None:
            e = self.a / self.b
            e2 = e * (self.a + 1) / self.b
            e3 = e2 * (self.a + 2) / self.b
            return [e, e2, e3, e3 * (self.a + 3) / self.b, 0.5, 1 / 3, 0.25]
        S, n, d = self.S, self.nu, self.d
        ix = list(zip(*np.triu_indices(d)))
        first = [n * S[i, j] for i, j in ix]
        second = [n * n * S[i, j] * S[k, l] + n * (S[i, k] * S[j, l] + S[i, l] * S[j, k]) for (i, j), (k, l) in itertools.combinations_with_replacement(ix, 2)]
        return [*first, *second]

    def shape_ok(self, x, size, what):
        """one row per sample"""
        x = np.asarray(x)
        if what == "variance" and self.a is None:
            return x.shape == (size, self.d, self.d)
        if what == "variance" or self.scalar:
            return x.shape == (size,)
        return x.shape == (size, self.d) or self.d == 1 and x.shape == (size,)

    def rows(self, mean, var):
        """[(mean vector, variance number or matrix)] per sample"""
        mean, var = np.asarray(mean, float), np.asarray(var, float)
        return [(np.atleast_1d(m).ravel(), v if self.a is None else float(v)) for m, v in zip(mean, var)]


def run(u, ctx):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        o = obj_of(u)
        if u["kind"] == "shapes":
            return shapes(u, ctx, o)
        try:
            (long if u["kind"] == "long" else law)(u, ctx, o)
        except Unscripted:
            ctx.sample(undecided=f"{type(o).__name__} draws in a way the scripted source does not know")
        except TooMany:
            ctx.sample(undecided=f"{type(o).__name__} draws more often than the bound")


def info_of(o, **kw):
    return dict(distribution=repr(o), **kw)


def law(u, ctx, o):
    L = Law(o)
    cls = L.cls
    key = f"{cls}{'' if L.scalar else L.d}"
    big = ctx.tier != "quick"

    def runs(f, nodes):
        for w, r in explore(f, nodes):
            ctx.step()
            ctx.eval()
            yield w, r

    # 1. the law of the variance, from sample_variance and from each method that returns it
    sources = {"sample_variance": lambda g: o.sample_variance(size=1, random_state=g)}
    for m in L.methods:
        sources[m] = lambda g, m=m: getattr(o, m)(size=1, return_variance=True, random_state=g)[1]
    want = np.array(L.expectations())
    n = (24 if L.a is not None else 4) * (2 if big else 1)
    for name, f in sources.items():
        res = []
        for k in (1, 2):
            only = name == "sample_variance"
            nodes = dict(gamma=n * k, uniform=3 * n * k, normal=3 if (L.a is not None or not only) else 4, beta=n * k)
            if L.a is None and L.d == 3:
                nodes.update(gamma=3 * k if only else 2 * k, normal=3 if only else 2)
            elif L.a is None and not only:
                nodes.update(gamma=3 * k, normal=3)
            if L.a is not None and not only:
                nodes.update(normal=1)
            if L.a is None and not only and L.d > 1:
                nodes.update(gamma=2 * k, normal=2)  # the polynomial functionals of degree two need no more
            tot = np.zeros(len(want))
            W = 0.0
            for w, v in runs(f, nodes):
                v = np.asarray(v, float)
                if not L.shape_ok(v, 1, "variance"):
                    ctx.fail(f"{key}:shape", f"{cls}.{name} of size 1 returned variances of shape {v.shape}", **info_of(o))
                    return
                tot += w * np.array(L.functionals(v[0] if L.a is None else float(v[0])))
                W += w
            res.append(tot / W)
        err = 4 * np.abs(res[1] - res[0])
        if L.a is None and not only and L.d > 1:
            # few normal nodes: only first moments are exact
            keep = L.d * (L.d + 1) // 2
        else:
            keep = len(want)
        ctx.state((str(u), name, "variance"))
        for j in range(keep):
            scale = max(abs(want[j]), abs(res[1][j]), 1e-12)
            if not abs(res[1][j] - want[j]) <= err[j] + 1e-6 * scale + 1e-9:
                ctx.fail(f"{key}:variance", f"{cls}.{name}: functional {j} of the variance is {res[1][j]!r}, exactly {want[j]!r} (+- {err[j]:.1e})", **info_of(o, functional=j))
                return
        ctx.trace()

    # 2. the mean given the variance returned with it
    for name in L.methods:
        groups = {}
        nodes = dict(gamma=3, uniform=5, normal=3 if L.d > 1 else 5, beta=3) if L.a is not None else dict(gamma=2, normal=3, beta=2)
        if L.a is None and L.d == 3:
            nodes = dict(gamma=1, normal=3)
            # the covariance itself uses three normal draws
        for w, (m, v) in runs(lambda g: getattr(o, name)(size=1, return_variance=True, random_state=g), nodes):
            if not (L.shape_ok(m, 1, "mean") and L.shape_ok(v, 1, "variance")):
                ctx.fail(f"{key}:shape", f"{cls}.{name} of size 1 returned shapes {np.shape(m)}, {np.shape(v)}", **info_of(o))
                return
            (x, s), = L.rows(m, v)
            k = tuple(float(f"{y:.9e}") for y in np.ravel(s))
            groups.setdefault(k, (s, []))[1].append((w, x - L.mu))
        for s, xs in groups.values():
            W = math.fsum(w for w, _ in xs)
            C = np.asarray(L.cov(s), float).reshape(L.d, L.d)
            # standardise so that the moments are those of a standard normal vector
            A = np.linalg.inv(np.linalg.cholesky(C))
            z = [(w / W, A @ x) for w, x in xs]
            tol = 1e-6 * (1 + np.max(np.abs(L.mu)) / math.sqrt(np.min(np.diag(C))))
            m1 = sum(w * y for w, y in z)
            m2 = sum(w * np.outer(y, y) for w, y in z)
            m4 = sum(w * y**4 for w, y in z)
            m3 = sum(w * y**3 for w, y in z)
            ctx.state((str(u), name, tuple(np.round(np.ravel(s), 9))))
            bad = None
            if np.max(np.abs(m1)) > tol or np.max(np.abs(m3)) > 10 * tol:
                bad = f"has mean {m1} (standardised)"
            elif np.max(np.abs(m2 - np.eye(L.d))) > tol:
                bad = f"has covariance {m2} times the documented one"
            elif np.max(np.abs(m4 - 3)) > 20 * tol:
                bad = f"has fourth moments {m4} instead of 3"
            if bad:
                ctx.fail(f"{key}:mean", f"{cls}.{name}: given the variance {s!r} the mean {bad}", **info_of(o))
                return
            ctx.trace()

    # 3. the rows are independent and alike; without the variances the means are the same
    for name in L.methods:
        for size in (2, 3, 4, 5, 6):
            if L.a is not None:
                draws = size * (1 + L.d)
                nodes = dict(gamma=3 if size == 2 else 2, uniform=3 if size == 2 else 2, normal=2, beta=2)
            else:
                draws = size * (L.d + L.d * (L.d - 1) // 2 + L.d)
                nodes = dict(gamma=2, normal=2, beta=2)
            if size > 2 and draws > (14 if big else 8) or draws > 14:
                break
            E, cross, first, W = None, None, None, 0.0
            for w, (m, v, m_only) in runs(lambda g: paired(o, name, size, g, nodes), nodes):
                if not (L.shape_ok(m, size, "mean") and L.shape_ok(v, size, "variance") and L.shape_ok(m_only, size, "mean")):
                    ctx.fail(f"{key}:shape", f"{cls}.{name} of size {size} returned shapes {np.shape(m)}, {np.shape(v)}, {np.shape(m_only)}", **info_of(o))
                    return
                if not np.allclose(np.ravel(m), np.ravel(m_only), rtol=1e-9, atol=1e-12):
                    ctx.fail(f"{key}:return_variance", f"{cls}.{name}: other means with return_variance", **info_of(o, size=size))
                    return
                h = []
                for x, s in L.rows(m, v):
                    y = np.linalg.inv(np.linalg.cholesky(np.asarray(L.cov(s), float).reshape(L.d, L.d))) @ (x - L.mu)
                    s_ = [math.log(s)] if L.a is not None else [math.log(q) for q in np.diag(s)] + [s[0, -1] / math.sqrt(s[0, 0] * s[-1, -1])]
                    h.append([*y, *y**2, *(y * s_[0]), *s_])
                h = np.array(h)
                if E is None:
                    E, cross = np.zeros(h.shape), np.zeros((h.shape[0], h.shape[1]) * 2)
                W += w
                E += w * h
                cross += w * np.multiply.outer(h, h)
            E, cross = E / W, cross / W
            ctx.state((str(u), name, "rows", size))
            span = 1e-6 * (1 + np.max(np.abs(E))) ** 2 * (1 + np.max(np.abs(L.mu)) * 0.1)
            for i, j in itertools.combinations(range(size), 2):
                if np.max(np.abs(E[i] - E[j])) > span:
                    ctx.fail(f"{key}:rows", f"{cls}.{name}: rows {i} and {j} of {size} follow different laws", **info_of(o))
                    return
                if np.max(np.abs(cross[i, :, j, :] - np.multiply.outer(E[i], E[j]))) > span:
                    ctx.fail(f"{key}:dependent", f"{cls}.{name}: rows {i} and {j} of {size} are dependent", **info_of(o))
                    return
            ctx.trace()
    ctx.sample(distribution=repr(o), expectations=[float(x) for x in want], methods=L.methods)


class Counting(Scripted):
    """knows whether only normal and gamma laws were asked for, whose two nodes are exact for first and second moments"""

    known = 0

    def _n(self):
        self.known += 1
        return super()._n()

    def _g(self, shape):
        self.known += 1
        return super()._g(shape)


def long(u, ctx, o):
    """many rows: every answer changes one row only, and some rows with every combination of their answers"""
    L = Law(o)
    key, size = f"{L.cls}{'' if L.scalar else L.d}", u["size"]
    nodes = dict(gamma=2, normal=2, beta=2, uniform=2)
    want = L.expectations()[: 1 if L.a is not None else L.d * (L.d + 1) // 2]

    def at(name, plan):
        g = Counting(plan, nodes, limit=10**6)
        m, v = getattr(o, name)(size=size, return_variance=True, random_state=g)
        ctx.step()
        ctx.eval()
        return g, np.asarray(m, float), np.asarray(v, float)

    for name in L.methods:
        info = info_of(o, size=size, method=name)
        g, m0, v0 = at(name, [])
        if not (L.shape_ok(m0, size, "mean") and L.shape_ok(v0, size, "variance")):
            ctx.fail(f"{key}:shape", f"{L.cls}.{name} of size {size} returned shapes {m0.shape}, {v0.shape}", **info)
            return
        base = [(7 * k // 3) % n for k, n in enumerate(g.arity)]
        g, m0, v0 = at(name, base)
        if g.pos != len(base):
            raise Unscripted  # the number of draws depends on the answers
        own = {}
        for k, n in enumerate(g.arity):
            if n < 2:
                continue
            flip = [*base]
            flip[k] = (flip[k] + 1) % n
            _, m, v = at(name, flip)
            rows = [i for i in range(size) if not (np.allclose(m[i], m0[i], rtol=1e-11, atol=0) and np.allclose(v[i], v0[i], rtol=1e-11, atol=0))]
            ctx.state((str(u), name, k))
            if len(rows) > 1:
                ctx.fail(f"{key}:dependent", f"{L.cls}.{name}: rows {rows[:5]} of {size} depend on the same draw", **info)
                return
            if rows:
                own.setdefault(rows[0], []).append(k)
        ctx.trace()
        for i in sorted({0, 1, size // 2, size - 1}):
            ks = own.get(i, [])
            if len(ks) > 9:
                continue
            groups, exact, tot, W = {}, True, np.zeros(len(want)), 0.0
            for answers in itertools.product(range(2), repeat=len(ks)):
                plan = [*base]
                for k, x in zip(ks, answers):
                    plan[k] = x
                g, m, v = at(name, plan)
                exact &= g.known == g.pos
                w = math.exp(sum(g.log_weights[k] for k in ks))
                (x, s), = L.rows(m[i : i + 1], v[i : i + 1])
                groups.setdefault(tuple(float(f"{y:.9e}") for y in np.ravel(s)), (s, []))[1].append((w, x - L.mu))
                tot += w * np.array(L.functionals(s)[: len(want)])
                W += w
            ctx.state((str(u), name, "row", i))
            if exact and not np.allclose(tot / W, want, rtol=1e-6, atol=1e-6 * np.max(np.abs(want))):
                ctx.fail(f"{key}:variance", f"{L.cls}.{name}: row {i} of {size} has the mean precision {tot / W}, exactly {want}", **info)
                return
            for s, xs in groups.values() if exact else ():
                W = math.fsum(w for w, _ in xs)
                C = np.asarray(L.cov(s), float).reshape(L.d, L.d)
                A = np.linalg.inv(np.linalg.cholesky(C))
                tol = 1e-6 * (1 + np.max(np.abs(L.mu)) / math.sqrt(np.min(np.diag(C))))
                m1 = sum(w / W * (A @ x) for w, x in xs)
                m2 = sum(w / W * np.outer(A @ x, A @ x) for w, x in xs)
                if np.max(np.abs(m1)) > tol or np.max(np.abs(m2 - np.eye(L.d))) > tol:
                    ctx.fail(f"{key}:mean", f"{L.cls}.{name}: row {i} of {size}, given the variance {s!r}, has mean {m1} and covariance {m2} (standardised)", **info)
                    return
            ctx.trace()


def paired(o, name, size, g, nodes):
    """the same answers with and without return_variance"""

    m, v = getattr(o, name)(size=size, return_variance=True, random_state=g)
    again = Scripted(g.plan, nodes, g.limit)
    return m, v, getattr(o, name)(size=size, random_state=again)


def shapes(u, ctx, o):
    L = Law(o)
    cls = L.cls
    for name in ["sample_variance", *L.methods]:
        # where a size is optional it is that of the signature
        default = inspect.signature(getattr(o, name)).parameters["size"].default
        if default is inspect.Parameter.empty:
            continue
        info = info_of(o, method=name, size="default")
        with ctx.guard(f"{cls}:default size", **info):
            ctx.step()
            a, b = getattr(o, name)(random_state=0), getattr(o, name)(size=1, random_state=0)
            ctx.eval(key=(str(u), "default", name))
            if default != 1 or np.shape(a) != np.shape(b) or not np.array_equal(a, b):
                ctx.fail(f"{cls}:default size", f"{cls}.{name}() returned {np.shape(a)}, size=1 returns {np.shape(b)}", **info)
    for size in [*range(1, 13), 20, 50, np.int64(3)]:
        for rs in (0, np.random.RandomState(1), np.random.default_rng(2)):
            for name in ["sample_variance", *L.methods]:
                for rv in ((False, True) if name != "sample_variance" else (False,)):
                    ctx.state((str(u), int(size), type(rs).__name__, name, rv))
                    ctx.eval(key=(str(u), int(size), type(rs).__name__, name, rv))
                    ctx.step()
                    info = info_of(o, method=name, size=size, return_variance=rv)
                    with ctx.guard(f"{cls}:shapes", **info):
                        r = getattr(o, name)(size=size, random_state=rs, **({"return_variance": True} if rv else {}))
                        parts = [(r[0], "mean"), (r[1], "variance")] if rv else [(r, "variance" if name == "sample_variance" else "mean")]
                        for x, what in parts:
                            if not L.shape_ok(x, int(size), what):
                                ctx.fail(f"{cls}:shapes", f"{cls}.{name}(size={size}) returned {what}s of shape {np.shape(x)}", **info)
                            elif not np.all(np.isfinite(x)):
                                ctx.fail(f"{cls}:finite", f"{cls}.{name}(size={size}) returned {x!r}", **info)
                            elif what == "variance" and np.any(np.linalg.eigvalsh(x) <= 0 if L.a is None else np.asarray(x) <= 0):
                                ctx.fail(f"{cls}:positive", f"{cls}.{name}(size={size}) returned variances that are not positive (definite)", **info)
                            else:
                                ctx.trace()
    ctx.sample(distribution=repr(o), sizes="1-12, 20, 50")
