"""Reference machines of the matrix models, in exact rational arithmetic."""

import itertools
import math
from fractions import Fraction

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import ref
from mc.ref import F

PD = {
    1: [[[1]], [[0.25]], [[9]]],
    2: [[[1, 0], [0, 1]], [[2, 0.75], [0.75, 0.5]], [[4, -1], [-1, 3]]],
    3: [
        [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        [[2, 0.5, -0.25], [0.5, 1, 0.25], [-0.25, 0.25, 3]],
        [[0.5, 0.125, 0], [0.125, 0.5, -0.125], [0, -0.125, 4]],
    ],
}
MU = {1: [[0], [-2.5]], 2: [[0, 0], [1, -3.5]], 3: [[0, 0, 0], [1, -2, 0.5]]}
ROWS = {
    1: [[0], [1], [-2.5], [30]],
    2: [[0, 0], [1, 0], [1, -2], [2.5, 3], [-40, 7]],
    3: [[0, 0, 0], [1, 0, 0], [1, -2, 3], [0.5, 4, -1], [10, 0, -20]],
}
YS = [0, -1.5, 12]


def pd_matrix(d, k=0):
    """deterministic positive definite matrix of any dimension"""
    A = [[((i * 7 + j * 3 + k) % 5) / 4 - 0.5 for j in range(d)] for i in range(d)]
    return [[sum(A[i][m] * A[j][m] for m in range(d)) + (1 + 0.5 * (i % 3)) * (i == j) for j in range(d)] for i in range(d)]


def pattern(n, d, k=0):
    return [[((i * i * 3 + 5 * i * j + 2 * j + k) % 13) / 4 - 1.5 + (i % 3 == j) for j in range(d)] for i in range(n)]


def frac_rows(X):
    return [[F(v) for v in r] for r in X]


def arr(X, d=None):
    a = np.array(X, dtype=None if len(X) else float)
    return a.reshape(len(X), d) if d is not None else a  # no rows: shape (0, d)


class LinReg:
    name = "linear_regression"
    cls = D.NormalInverseGamma
    fields = ("mu", "delta_inverse", "alpha", "beta")

    @staticmethod
    def priors(d):
        return [
            {"mu": m, "delta_inverse": v, "alpha": a, "beta": b}
            for (m, v), (a, b) in itertools.product(
                [(MU[d][0], PD[d][0]), (MU[d][1], PD[d][1]), (MU[d][1], PD[d][2])], [(1, 1), (0.5, 20.25)]
            )
        ]

    @staticmethod
    def knowns(d):
        return [{}]

    @staticmethod
    def atoms(d):
        return [(r, YS[(i * 2) % 3]) for i, r in enumerate(ROWS[d])] + [(ROWS[d][1], 12), (ROWS[d][2], -1.5)]

    @staticmethod
    def prior(f, form=np.array):
        return D.NormalInverseGamma(mu=form(f["mu"]), delta_inverse=form(f["delta_inverse"]), alpha=f["alpha"], beta=f["beta"])

    @staticmethod
    def args(obs, kn, d):
        return {"X": arr([r for r, _ in obs], d), "y": np.array([y for _, y in obs], dtype=None if obs else float)}

    @staticmethod
    def expected(p, obs, kn, d):
        V0 = ref.fmat(p["delta_inverse"])
        L0 = ref.minv(V0)
        X, y = frac_rows([r for r, _ in obs]), [F(v) for _, v in obs]
        mu0 = ref.fvec(p["mu"])
        XtX = ref.mm(ref.mT(X), X) if obs else ref.mscale(0, L0)
        Xty = ref.mv(ref.mT(X), y) if obs else [Fraction(0)] * d
        Ln = ref.madd(XtX, L0)
        Vn = ref.minv(Ln)
        mun = ref.mv(Vn, [a + b for a, b in zip(ref.mv(L0, mu0), Xty)])
        # residual form: (y - X mu_n)'(y - X mu_n) + (mu_n - mu0)' L0 (mu_n - mu0)
        r = [yi - ref.vdot(row, mun) for yi, row in zip(y, X)]
        dm = [a - b for a, b in zip(mun, mu0)]
        b = F(p["beta"]) + (ref.vdot(r, r) + ref.vdot(dm, ref.mv(L0, dm))) / 2
        return {"mu": mun, "delta_inverse": Vn, "alpha": F(p["alpha"]) + Fraction(len(obs), 2), "beta": b}

    @staticmethod
    def mag(p, obs, d):
        q = sum(float(y) ** 2 for _, y in obs)
        mu = np.array(p["mu"], float)
        return {"beta": q + float(mu @ np.linalg.solve(np.array(p["delta_inverse"], float), mu))}

    @staticmethod
    def thetas(d):
        return [(t, v) for t in ([0.0] * d, [1.0, -0.5, 2.0][:d], [-2.0, 3.0, 0.25][:d], [0.1, 0.2, -3.0][:d]) for v in (0.5, 4.0)]

    @staticmethod
    def logfam(t, f):
        b, v = t
        return ref.mvn(b, f["mu"], v * np.asarray(f["delta_inverse"], float)) + ref.inverse_gamma(v, float(f["alpha"]), float(f["beta"]))

    @staticmethod
    def loglik(t, o, kn):
        b, v = t
        r, y = o
        return ref.normal(float(y), float(np.dot(np.array(r, float), b)), v)


class MvnKnownCov:
    name = "multivariate_normal_known_covariance"
    cls = D.MultivariateNormal
    fields = ("mu", "cov")
    known = "cov"

    @classmethod
    def priors(cls, d):
        return [{"mu": m, "cov": c} for m in MU[d] for c in PD[d]]

    @classmethod
    def knowns(cls, d):
        return [{cls.known: PD[d][0]}, {cls.known: PD[d][1]}]

    @staticmethod
    def atoms(d):
        return ROWS[d]

    @staticmethod
    def prior(f, form=np.array):
        return D.MultivariateNormal(mu=form(f["mu"]), cov=form(f["cov"]))

    @classmethod
    def args(cls, obs, kn, d):
        n = len(obs)
        bar = np.array(obs, float).mean(axis=0) if n else np.zeros(d)
        return {"n": n, "x_bar": bar, cls.known: np.array(kn[cls.known])}

    @classmethod
    def cov(cls, kn):
        return ref.fmat(kn["cov"])

    @classmethod
    def expected(cls, p, obs, kn, d):
        L0, L = ref.minv(ref.fmat(p["cov"])), ref.minv(cls.cov(kn))
        n = len(obs)
        P = ref.madd(L0, ref.mscale(n, L))
        C = ref.minv(P)
        tot = [sum((F(o[i]) for o in obs), Fraction(0)) for i in range(d)]
        rhs = [a + b for a, b in zip(ref.mv(L0, ref.fvec(p["mu"])), ref.mv(L, tot))]
        return {"mu": ref.mv(C, rhs), "cov": C}

    @staticmethod
    def mag(p, obs, d):
        return {}

    @staticmethod
    def thetas(d):
        return [[0.0] * d, [1.0, -0.5, 2.0][:d], [-2.0, 3.0, 0.25][:d], [0.1, 0.2, -3.0][:d], [4.0, -1.0, 1.0][:d]]

    @staticmethod
    def logfam(t, f):
        return ref.mvn(t, f["mu"], f["cov"])

    @classmethod
    def loglik(cls, t, o, kn):
        return ref.mvn(o, t, ref.tofloat(cls.cov(kn)))


class MvnKnownPrec(MvnKnownCov):
    name = "multivariate_normal_known_precision"
    known = "precision"

    @classmethod
    def cov(cls, kn):
        return ref.minv(ref.fmat(kn["precision"]))


class MvnKnownMean:
    name = "multivariate_normal_known_mean"
    cls = D.InverseWishart
    fields = ("nu", "psi")

    @staticmethod
    def priors(d):
        return [{"nu": n, "psi": c} for n in (d, d + 2.5) for c in PD[d]]

    @staticmethod
    def knowns(d):
        return [{"mu": m} for m in MU[d]]

    @staticmethod
    def atoms(d):
        return ROWS[d]

    @staticmethod
    def prior(f, form=np.array):
        return D.InverseWishart(nu=f["nu"], psi=form(f["psi"]))

    @staticmethod
    def args(obs, kn, d):
        return {"X": arr(obs, d), "mu": np.array(kn["mu"])}

    @staticmethod
    def expected(p, obs, kn, d):
        psi = ref.fmat(p["psi"])
        for o in obs:
            r = [F(a) - F(b) for a, b in zip(o, kn["mu"])]
            psi = ref.madd(psi, ref.vouter(r, r))
        return {"nu": F(p["nu"]) + len(obs), "psi": psi}

    @staticmethod
    def mag(p, obs, d):
        return {}

    @staticmethod
    def thetas(d):
        return [np.array(c, float) * s for c in PD[d] for s in (0.5, 2.0)]

    @staticmethod
    def logfam(t, f):
        return ref.inverse_wishart(t, float(f["nu"]), f["psi"])

    @staticmethod
    def loglik(t, o, kn):
        return ref.mvn(o, kn["mu"], t)


class MvnNIW:
    name = "multivariate_normal"
    cls = D.NormalInverseWishart
    fields = ("mu", "kappa", "nu", "psi")

    @staticmethod
    def priors(d):
        return [
            {"mu": m, "kappa": k, "nu": n, "psi": c}
            for (m, c) in [(MU[d][0], PD[d][0]), (MU[d][1], PD[d][1]), (MU[d][1], PD[d][2])]
            for k, n in [(1, d), (0.25, d + 1.5), (6, 2 * d + 3)]
        ]

    @staticmethod
    def knowns(d):
        return [{}]

    @staticmethod
    def atoms(d):
        return ROWS[d]

    @staticmethod
    def prior(f, form=np.array):
        return D.NormalInverseWishart(mu=form(f["mu"]), kappa=f["kappa"], nu=f["nu"], psi=form(f["psi"]))

    @staticmethod
    def args(obs, kn, d):
        return {"X": arr(obs, d)}

    @staticmethod
    def expected(p, obs, kn, d):
        n = len(obs)
        k = F(p["kappa"])
        mu0 = ref.fvec(p["mu"])
        tot = [sum((F(o[i]) for o in obs), Fraction(0)) for i in range(d)]
        mu = [(k * m + t) / (k + n) for m, t in zip(mu0, tot)]
        # psi + sum x x' + kappa mu0 mu0' - (kappa + n) mu_n mu_n'
        psi = ref.madd(ref.fmat(p["psi"]), ref.mscale(k, ref.vouter(mu0, mu0)))
        for o in obs:
            psi = ref.madd(psi, ref.vouter(ref.fvec(o), ref.fvec(o)))
        psi = ref.msub(psi, ref.mscale(k + n, ref.vouter(mu, mu)))
        return {"mu": mu, "kappa": k + n, "nu": F(p["nu"]) + n, "psi": psi}

    @staticmethod
    def mag(p, obs, d):
        return {"psi": sum(float(np.dot(o, o)) for o in obs)}

    @staticmethod
    def thetas(d):
        mus = ([0.0] * d, [1.0, -0.5, 2.0][:d], [-2.0, 3.0, 0.25][:d])
        return [(m, np.array(c, float)) for m in mus for c in PD[d][:2]]

    @staticmethod
    def logfam(t, f):
        m, S = t
        return ref.mvn(m, f["mu"], S / float(f["kappa"])) + ref.inverse_wishart(S, float(f["nu"]), f["psi"])

    @staticmethod
    def loglik(t, o, kn):
        return ref.mvn(o, t[0], t[1])


MV = {c.name: c for c in (LinReg, MvnKnownCov, MvnKnownPrec, MvnKnownMean, MvnNIW)}


def call(spec, prior_obj, obs, kn, d, **extra):
    return getattr(M, spec.name)(prior=prior_obj, **spec.args(obs, kn, d), **extra)


def compare(spec, obj, exp, mag, rtol=1e-8):
    if type(obj) is not spec.cls:
        return f"returned {type(obj).__name__} instead of {spec.cls.__name__}"
    for k, e in exp.items():
        e = np.asarray(ref.tofloat(e), float)
        try:
            g = np.asarray(getattr(obj, k), float)
        except Exception as ex:
            return f"{k} = {getattr(obj, k)!r} is not numeric: {ex}"
        if g.shape != e.shape and not (e.ndim == 0 and g.size == 1):
            return f"{k} has shape {g.shape} instead of {e.shape}"
        g = g.reshape(e.shape)
        top = float(np.max(np.abs(e))) if e.size else 0.0
        if not ref.allclose(g, e, rtol, atol=1e-300 + 1e-10 * top + 4e-13 * mag.get(k, 0.0) + (4e-13 * (1 + max([0.0, *mag.values()]) ** 0.5) if k == "mu" else 0)):
            return f"{k} = {g.tolist()} instead of {e.tolist()}"
        if e.ndim == 2 and not ref.allclose(g, g.T, 1e-10, atol=1e-10 * top + 4e-13 * mag.get(k, 0.0)):
            return f"{k} = {g.tolist()} is not symmetric"
    if spec is LinReg and obj.nu is not None:
        return f"nu = {obj.nu!r} instead of None"
    return None
