"""Reference mathematics, written from the textbook definitions and independent of the code under test."""

import math
from fractions import Fraction

import numpy as np
from scipy import special as sp

NINF = -math.inf
LOG2PI = math.log(2 * math.pi)


def xlogy(x, y):
    return 0.0 if x == 0 else x * (math.log(y) if y > 0 else NINF)


def lbeta(a, b):
    return float(sp.betaln(float(a), float(b)))


# -- univariate log densities / masses (python scalars in, float out) ----------------------------


def beta(t, a, b):
    if not 0 <= t <= 1:
        return NINF
    return xlogy(a - 1, t) + xlogy(b - 1, 1 - t) - lbeta(a, b)


def gamma(t, a, rate):
    if t < 0:
        return NINF
    return xlogy(a - 1, t) - rate * t + a * math.log(rate) - math.lgamma(a)


def inverse_gamma(v, a, b):
    if v <= 0:
        return NINF
    return a * math.log(b) - math.lgamma(a) - (a + 1) * math.log(v) - b / v


def scaled_inv_chi2(v, nu, s2):
    return inverse_gamma(v, nu / 2, nu * s2 / 2)


def normal(x, mu, var):
    return -0.5 * (LOG2PI + math.log(var)) - (x - mu) ** 2 / (2 * var)


def student_t(x, nu, mu, s2):
    z = (x - mu) ** 2 / s2
    return (
        math.lgamma((nu + 1) / 2)
        - math.lgamma(nu / 2)
        - 0.5 * math.log(nu * math.pi * s2)
        - (nu + 1) / 2 * math.log1p(z / nu)
    )


def exponential(x, rate):
    return NINF if x < 0 else math.log(rate) - rate * x


def lomax(x, alpha, lam):
    return NINF if x < 0 else math.log(alpha) - math.log(lam) - (alpha + 1) * math.log1p(x / lam)


def compound_gamma(x, a, b, q):
    """Gamma(a, rate) with rate ~ Gamma(b, q)."""
    if x < 0:
        return NINF
    return xlogy(a - 1, x / q) - (a + b) * math.log1p(x / q) - math.log(q) - lbeta(a, b)


def pareto(x, xm, alpha):
    return NINF if x < xm else math.log(alpha) + alpha * math.log(xm) - (alpha + 1) * math.log(x)


def uniform(x, lo, hi):
    return -math.log(hi - lo) if lo <= x <= hi else NINF


def log_normal(x, mu, var):
    return NINF if x <= 0 else normal(math.log(x), mu, var) - math.log(x)


def weibull(x, shape, theta):
    """theta = scale ** shape"""
    if x < 0:
        return NINF
    return math.log(shape / theta) + xlogy(shape - 1, x) - x**shape / theta


def von_mises(x, mu, kappa):
    return kappa * math.cos(x - mu) - math.log(2 * math.pi) - math.log(float(sp.i0e(kappa))) - kappa


def isint(k):
    return k == math.floor(k)


def poisson(k, lam):
    if k < 0 or not isint(k):
        return NINF
    return xlogy(k, lam) - lam - math.lgamma(k + 1)


def binomial(k, n, p):
    if k < 0 or k > n or not isint(k):
        return NINF
    return lchoose(n, k) + xlogy(k, p) + xlogy(n - k, 1 - p)


def lchoose(n, k):
    return math.lgamma(n + 1) - math.lgamma(k + 1) - math.lgamma(n - k + 1)


def neg_binomial(k, r, p):
    """k failures before the r-th success"""
    if k < 0 or not isint(k):
        return NINF
    return math.lgamma(k + r) - math.lgamma(r) - math.lgamma(k + 1) + xlogy(r, p) + xlogy(k, 1 - p)


def geometric(k, p, one_start=True):
    f = k - 1 if one_start else k
    if f < 0 or not isint(f):
        return NINF
    return math.log(p) + xlogy(f, 1 - p)


def hypergeometric(k, N, K, n):
    if k < max(0, n - (N - K)) or k > min(n, K) or not isint(k):
        return NINF
    return lchoose(K, k) + lchoose(N - K, n - k) - lchoose(N, n)


def beta_binomial(k, n, a, b):
    if k < 0 or k > n or not isint(k):
        return NINF
    return lchoose(n, k) + lbeta(k + a, n - k + b) - lbeta(a, b)


def beta_neg_binomial(k, r, a, b):
    if k < 0 or not isint(k):
        return NINF
    return math.lgamma(k + r) - math.lgamma(r) - math.lgamma(k + 1) + lbeta(a + r, b + k) - lbeta(a, b)


def beta_geometric(k, a, b, one_start=True):
    f = k - 1 if one_start else k
    if f < 0 or not isint(f):
        return NINF
    return lbeta(a + 1, b + f) - lbeta(a, b)


def dirichlet(p, alpha):
    s = math.lgamma(sum(alpha)) - sum(math.lgamma(a) for a in alpha)
    return s + sum(xlogy(a - 1, q) for a, q in zip(alpha, p))


def multinomial(x, p):
    return math.lgamma(sum(x) + 1) - sum(math.lgamma(k + 1) for k in x) + sum(xlogy(k, q) for k, q in zip(x, p))


def dirichlet_multinomial(x, alpha):
    n, A = sum(x), sum(alpha)
    return (
        math.lgamma(A) + math.lgamma(n + 1) - math.lgamma(n + A)
        + sum(math.lgamma(k + a) - math.lgamma(a) - math.lgamma(k + 1) for k, a in zip(x, alpha))
    )


# -- multivariate --------------------------------------------------------------------------------


def mvn(x, mu, cov):
    x, mu, cov = (np.asarray(v, float) for v in (x, mu, cov))
    d = x.size
    r = x - mu
    s, ld = np.linalg.slogdet(cov)
    return float(-0.5 * (d * LOG2PI + ld + r @ np.linalg.solve(cov, r)))


def mvt(x, nu, mu, S):
    x, mu, S = (np.asarray(v, float) for v in (x, mu, S))
    d = x.size
    r = x - mu
    s, ld = np.linalg.slogdet(S)
    q = float(r @ np.linalg.solve(S, r))
    return float(
        math.lgamma((nu + d) / 2) - math.lgamma(nu / 2) - d / 2 * math.log(nu * math.pi) - ld / 2
        - (nu + d) / 2 * math.log1p(q / nu)
    )


def inverse_wishart(S, nu, psi):
    """unnormalised in S only by the multivariate gamma function, which is included"""
    S, psi = np.asarray(S, float), np.asarray(psi, float)
    d = psi.shape[0]
    return float(
        nu / 2 * np.linalg.slogdet(psi)[1] - nu * d / 2 * math.log(2) - sp.multigammaln(nu / 2, d)
        - (nu + d + 1) / 2 * np.linalg.slogdet(S)[1] - 0.5 * np.trace(psi @ np.linalg.inv(S))
    )


# -- exact linear algebra over the rationals -----------------------------------------------------


def F(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    return Fraction(float(x))


def fmat(A):
    return [[F(x) for x in row] for row in A]


def fvec(v):
    return [F(x) for x in v]


def mm(A, B):
    return [[sum((a * b for a, b in zip(row, col)), Fraction(0)) for col in zip(*B)] for row in A]


def mv(A, v):
    return [sum((a * b for a, b in zip(row, v)), Fraction(0)) for row in A]


def madd(A, B):
    return [[a + b for a, b in zip(r, s)] for r, s in zip(A, B)]


def msub(A, B):
    return [[a - b for a, b in zip(r, s)] for r, s in zip(A, B)]


def mscale(c, A):
    return [[c * a for a in r] for r in A]


def mT(A):
    return [list(r) for r in zip(*A)]


def vdot(u, v):
    return sum((a * b for a, b in zip(u, v)), Fraction(0))


def vouter(u, v):
    return [[a * b for b in v] for a in u]


def eye(d):
    return [[Fraction(int(i == j)) for j in range(d)] for i in range(d)]


def minv(A):
    d = len(A)
    M = [list(r) + e for r, e in zip(fmat(A), eye(d))]
    for c in range(d):
        p = next(r for r in range(c, d) if M[r][c] != 0)
        M[c], M[p] = M[p], M[c]
        pv = M[c][c]
        M[c] = [x / pv for x in M[c]]
        for r in range(d):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[c])]
    return [r[d:] for r in M]


def tofloat(x):
    if isinstance(x, list):
        return [tofloat(v) for v in x]
    return float(x)


# -- comparison ----------------------------------------------------------------------------------


def close(a, b, rtol=1e-9, atol=1e-12):
    """scalar closeness; equal infinities are close, NaN is close to nothing"""
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def allclose(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    eq = a == b
    with np.errstate(all="ignore"):
        ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
    return bool(np.all(eq | (ok & np.isfinite(a) & np.isfinite(b))))
