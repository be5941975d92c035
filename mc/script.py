"""A random generator whose every elementary draw is a choice point, and the exhaustive exploration of the choices.

Each scalar draw offers the nodes of a Gauss rule for the law the caller asked for (or all outcomes up to a bound for a
discrete law); exploring all combinations and adding up the weights gives the expectation of any function of the result.
"""

import contextlib
import functools
import math

import numpy as np
from scipy import special as sp


class Unscripted(Exception):
    """The code draws in a way this generator does not enumerate."""


class TooMany(Exception):
    """More choice points than the bound."""


@functools.lru_cache(None)
def normal_nodes(n):
    x, w = np.polynomial.hermite_e.hermegauss(n)
    return tuple(x), tuple(w / w.sum())


@functools.lru_cache(None)
def gamma_nodes(shape, n):
    x, w = sp.roots_genlaguerre(n, shape - 1)
    return tuple(x), tuple(w / w.sum())


@functools.lru_cache(None)
def beta_nodes(a, b, n):
    x, w = sp.roots_jacobi(n, b - 1, a - 1)
    return tuple((x + 1) / 2), tuple(w / w.sum())


@functools.lru_cache(None)
def uniform_nodes(n):
    x, w = sp.roots_legendre(n)
    return tuple((x + 1) / 2), tuple(w / 2)


class Scripted(np.random.Generator):
    NODES = dict(normal=5, gamma=8, beta=20, uniform=40, discrete=60)

    def __init__(self, plan=(), nodes=None, limit=64):
        super().__init__(np.random.PCG64(0))
        self.plan, self.pos, self.weight, self.arity = list(plan), 0, 1.0, []
        self.n = {**self.NODES, **(nodes or {})}
        self.limit = limit
        self.log_weights = []  # of each answer

    def choose(self, values, weights):
        if self.pos >= self.limit:
            raise TooMany
        i = self.plan[self.pos] if self.pos < len(self.plan) else 0
        self.pos += 1
        self.last = i
        self.arity.append(len(values))
        self.weight *= weights[i]
        self.log_weights.append(math.log(weights[i]) if weights[i] > 0 else -math.inf)
        return values[i]

    # -- helpers --------------------------------------------------------------------------------
    def _each(self, f, size, *params):
        params = [np.asarray(p, float) for p in params]
        shape = np.broadcast_shapes(*[p.shape for p in params])
        if size is not None:
            size = (size,) if np.ndim(size) == 0 else tuple(size)
            shape = np.broadcast_shapes(size, shape)
            if shape != tuple(size):
                raise ValueError("size does not match the parameters")
        if shape == ():
            return f(*[float(p) for p in params])
        ps = [np.broadcast_to(p, shape) for p in params]
        out = np.empty(shape)
        for idx in np.ndindex(shape):
            out[idx] = f(*[float(p[idx]) for p in ps])
        return out

    # -- laws -----------------------------------------------------------------------------------
    def _n(self):
        return self.choose(*normal_nodes(self.n["normal"]))

    def _g(self, shape):
        return self.choose(*gamma_nodes(shape, self.n["gamma"]))

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._each(lambda: self._n(), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._each(lambda m, s: m + s * self._n(), size, loc, scale)

    def lognormal(self, mean=0.0, sigma=1.0, size=None):
        return np.exp(self.normal(mean, sigma, size))

    def standard_gamma(self, shape, size=None, dtype=None, out=None):
        return self._each(self._g, size, shape)

    def gamma(self, shape, scale=1.0, size=None):
        return self._each(lambda a, s: s * self._g(a), size, shape, scale)

    def chisquare(self, df, size=None):
        return self._each(lambda k: 2 * self._g(k / 2), size, df)

    def standard_exponential(self, size=None, dtype=None, method=None, out=None):
        return self._each(lambda: self._g(1.0), size)

    def exponential(self, scale=1.0, size=None):
        return self._each(lambda s: s * self._g(1.0), size, scale)

    def standard_t(self, df, size=None):
        return self._each(lambda k: self._n() / math.sqrt(2 * self._g(k / 2) / k), size, df)

    def beta(self, a, b, size=None):
        return self._each(lambda p, q: self.choose(*beta_nodes(p, q, self.n["beta"])), size, a, b)

    def random(self, size=None, dtype=None, out=None):
        return self._each(lambda: self.choose(*uniform_nodes(self.n["uniform"])), size)

    def random_sample(self, size=None):
        return self.random(size)

    def rand(self, *shape):
        return self.random(shape or None)

    def randn(self, *shape):
        return self.standard_normal(shape or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._each(lambda a, b: a + (b - a) * self.choose(*uniform_nodes(self.n["uniform"])), size, low, high)

    def geometric(self, p, size=None):
        def one(q):
            k = np.arange(1, self.n["discrete"] + 1)
            return self.choose(k, q * (1 - q) ** (k - 1))

        r = self._each(one, size, p)
        return r.astype(np.int64) if isinstance(r, np.ndarray) else int(r)

    def poisson(self, lam=1.0, size=None):
        def one(m):
            k = np.arange(0, self.n["discrete"])
            return self.choose(k, np.exp(k * math.log(m) - m - sp.gammaln(k + 1)))

        r = self._each(one, size, lam)
        return r.astype(np.int64) if isinstance(r, np.ndarray) else int(r)

    def multivariate_normal(self, mean, cov, size=None, check_valid="warn", tol=1e-8, *, method="svd"):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        size = () if size is None else ((size,) if np.ndim(size) == 0 else tuple(size))
        chol = np.linalg.cholesky(cov)
        z = self._each(lambda: self._n(), (*size, mean.size))
        return mean + z @ chol.T

    def dirichlet(self, alpha, size=None):
        alpha = np.asarray(alpha, float)
        size = () if size is None else ((size,) if np.ndim(size) == 0 else tuple(size))
        g = self._each(self._g, (*size, alpha.size), alpha)
        return g / g.sum(axis=-1, keepdims=True)

    def _no(self, *a, **k):
        raise Unscripted

    bytes = choice = integers = permutation = permuted = shuffle = _no
    binomial = negative_binomial = hypergeometric = logseries = zipf = multinomial = multivariate_hypergeometric = _no
    f = gumbel = laplace = logistic = noncentral_chisquare = noncentral_f = pareto = power = rayleigh = standard_cauchy = _no
    triangular = vonmises = wald = weibull = spawn = _no


def explore(fn, nodes=None, limit=64, max_runs=400_000):
    """yield (weight, result of fn(generator)) for every combination of choices"""
    plan, runs = [], 0
    while True:
        g = Scripted(plan, nodes, limit)
        out = fn(g)
        runs += 1
        if runs > max_runs:
            raise TooMany
        yield g.weight, out
        plan = (plan + [0] * (g.pos - len(plan)))[: g.pos]
        k = len(plan) - 1
        while k >= 0 and plan[k] + 1 >= g.arity[k]:
            k -= 1
        if k < 0:
            return
        plan = plan[: k + 1]
        plan[k] += 1


class Seeded(Scripted):
    """What an integer seed stands for while `seeds` is active: equal seeds give the same answers again."""

    def __init__(self, master, seed, memo):
        super().__init__((), master.n, master.limit)
        self.master, self.seed, self.memo, self.local = master, seed, memo, 0

    def choose(self, values, weights):
        key = (self.seed, self.local)
        self.local += 1
        if key in self.memo:
            return values[self.memo[key] % len(values)]
        v = self.master.choose(values, weights)
        self.memo[key] = self.master.last
        return v


@contextlib.contextmanager
def seeds(master):
    """integer seeds draw from the choice points of master"""
    memo = {}
    saved = np.random.RandomState, np.random.default_rng

    def source(seed):
        if seed is None or isinstance(seed, (np.random.SeedSequence, np.random.BitGenerator)) or not np.isscalar(seed):
            raise Unscripted
        return Seeded(master, int(seed), memo)

    class RandomState:
        def __new__(cls, seed=None):
            return source(seed)

    def default_rng(seed=None):
        return seed if isinstance(seed, np.random.Generator) else source(seed)

    np.random.RandomState, np.random.default_rng = RandomState, default_rng
    try:
        yield
    finally:
        np.random.RandomState, np.random.default_rng = saved
