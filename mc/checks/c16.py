"""C16 a distribution of the wrong family is rejected, one of the documented type or a subclass is accepted."""

import itertools
import types
from dataclasses import dataclass, fields, make_dataclass

import numpy as np
from scipy import stats

from conjugate import distributions as D
from conjugate import models as M
from mc.bcast import CALLS
from mc.world import UNI, norm, same

ID = "C16"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of function x argument object x pattern of the other arguments, and of all histories of such calls up to a depth, on the real code"
RULE = (
    "state = (function, object given as the prior or distribution, pattern of the other arguments); transition = one real call; the model "
    "is the documented table of accepted types: a call outside it must raise ValueError, one inside it must give what the plain object gives; "
    "trace = a history of such calls to one function (accepted and rejected ones in every order)"
)
ASSUMPTIONS = ["documented types as in the annotations and docstrings at the pinned commit", "objects that lie about their __class__ are not judged"]
BOUNDS = {
    "quick": "48 functions x ~130 objects x 5 patterns of other arguments; histories of 3 calls over 12 objects",
    "thorough": "the same objects and histories of 4 calls",
}

MU2, S2 = np.array([0.5, -1.0]), np.array([[2.0, 0.5], [0.5, 1.0]])
X2 = np.array([[1.0, 2.0], [0.5, -1.0], [3.0, 0.25]])
MULTI = {
    "Dirichlet": dict(alpha=np.array([1.0, 2.5, 4.0])),
    "Multinomial": dict(n=5, p=np.array([0.25, 0.25, 0.5])),
    "DirichletMultinomial": dict(alpha=np.array([1.0, 2.5, 4.0]), n=5),
    "MultivariateNormal": dict(mu=MU2, cov=S2),
    "MultivariateStudentT": dict(mu=MU2, sigma=S2, nu=4.5),
    "InverseWishart": dict(nu=4.5, psi=S2),
    "Wishart": dict(nu=4.5, V=S2),
    "NormalInverseWishart": dict(mu=MU2, kappa=2.0, nu=4.5, psi=S2),
    "NormalWishart": dict(mu=MU2, lam=2.0, W=S2, nu=4.5),
}
CLASSES = {**{k: v[0] for k, v in UNI.items()}, **MULTI}
VECTORS = {k: {n: np.array(v) for n, v in x[1].items()} for k, x in UNI.items()}
NIG2 = dict(mu=MU2, delta_inverse=S2, alpha=3.5, beta=4.0)

# function -> (argument, documented types, valid other arguments)
TABLE = {}
for _c in CALLS.values():
    t = TABLE.setdefault(_c.fn, [_c.target, [], {k: v[0] for k, v in _c.args.items()}])
    t[1] += [_c.cls] if _c.cls not in t[1] else []
    for _k, _v in _c.args.items():
        t[2].setdefault(_k, _v[0])
TABLE["hypergeometric_beta_binomial"][2]["n"] = 100
TABLE.update(
    {
        "categorical_dirichlet": ["prior", ["Dirichlet"], {"x": np.array([1, 0, 2])}],
        "multinomial_dirichlet": ["prior", ["Dirichlet"], {"x": np.array([1, 0, 2])}],
        "categorical_dirichlet_predictive": ["distribution", ["Dirichlet"], {}],
        "multinomial_dirichlet_predictive": ["distribution", ["Dirichlet"], {"n": 5}],
        "linear_regression": ["prior", ["NormalInverseGamma"], {"X": X2, "y": np.array([1.0, 2.0, 0.5])}],
        "linear_regression_predictive": ["distribution", ["NormalInverseGamma"], {"X": X2}],
        "multivariate_normal_known_covariance": ["prior", ["MultivariateNormal"], {"n": 3, "x_bar": MU2, "cov": S2}],
        "multivariate_normal_known_covariance_predictive": ["distribution", ["MultivariateNormal"], {"cov": S2}],
        "multivariate_normal_known_precision": ["prior", ["MultivariateNormal"], {"n": 3, "x_bar": MU2, "precision": S2}],
        "multivariate_normal_known_precision_predictive": ["distribution", ["MultivariateNormal"], {"precision": S2}],
        "multivariate_normal_known_mean": ["prior", ["InverseWishart"], {"X": X2, "mu": MU2}],
        "multivariate_normal": ["prior", ["NormalInverseWishart"], {"X": X2}],
        "multivariate_normal_predictive": ["distribution", ["NormalInverseWishart"], {}],
    }
)
REGRESSION = {"linear_regression", "linear_regression_predictive"}


def make(cls, fn=None, ctor=None):
    f = NIG2 if cls == "NormalInverseGamma" and fn in REGRESSION else CLASSES[cls]
    return (ctor or getattr(D, cls))(**f)


class Ducks:
    """has every attribute and supports no arithmetic"""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return 1.0


class Reject:
    def __repr__(self):
        return "<not a number>"


def subclass(cls, how):
    base = getattr(D, cls)
    if how == "plain":
        return type("My" + cls, (base,), {})
    if how == "twice":
        return type("Deep", (type("My" + cls, (base,), {}),), {})
    if how == "same name":
        return type(cls, (base,), {"extra": 1})
    if how == "wrong name":  # named as another family
        return type("Poisson" if cls != "Poisson" else "Gamma", (base,), {})
    if how == "dataclass":
        return dataclass(type("Data" + cls, (base,), {"__annotations__": {"note": str}, "note": "x"}))
    if how == "mixed in":
        return type("Mixed" + cls, (type("Other", (), {}), base), {})
    raise KeyError(how)


SUBS = ["plain", "twice", "same name", "wrong name", "dataclass", "mixed in"]


def wrong(fn):
    """objects that are not of a documented type, by name"""
    target, ok, _ = TABLE[fn]
    out = {
        "None": None, "missing": "missing", "0": 0, "1.5": 1.5, "text": "Beta(1, 1)", "True": True, "array": np.array([1.0, 2.0]), "empty list": [], "object()": object(),
        "scipy frozen": stats.beta(1, 2), "module": D, "anything": Ducks(), "function": make,
    }
    for c in CLASSES:
        o = make(c, fn)
        if c not in ok:
            out[f"{c} instance"] = o
            if c in VECTORS:
                out[f"{c} vectors"] = getattr(D, c)(**VECTORS[c])
            out[f"{c} subclass"] = make(c, fn, subclass(c, "plain"))
            out[f"{c} subclass named {ok[0]}"] = make(c, fn, type(ok[0], (getattr(D, c),), {}))
    for c in ok:
        f = {x.name: getattr(make(c, fn), x.name) for x in fields(getattr(D, c))}
        out[f"class {c}"] = getattr(D, c)
        out[f"subclass {c}"] = subclass(c, "plain")
        out[f"name {c}"] = c
        out[f"dict of {c}"] = f
        out[f"tuple of {c}"] = (make(c, fn),)
        out[f"list of {c}"] = [make(c, fn)]
        out[f"namespace like {c}"] = types.SimpleNamespace(**f)
        out[f"dataclass named {c}"] = make_dataclass(c, list(f))(*f.values())
        out[f"class with the module and name of {c}"] = type(c, (), {**f, "__module__": "conjugate.distributions", "__qualname__": c})()
        if hasattr(getattr(D, c), "dist") and c != "NormalInverseGamma":
            out[f"dist of {c}"] = make(c, fn).dist
        bases = [b for b in getattr(D, c).__mro__[1:] if b is not object]
        for b in bases:
            try:
                o = b()
            except Exception:
                continue
            for k, v in f.items():
                setattr(o, k, v)
            out[f"{b.__name__} with the fields of {c}"] = o
    return out


def right(fn):
    target, ok, _ = TABLE[fn]
    out = {}
    for c in ok:
        out[f"{c}"] = (make(c, fn), c)
        for h in SUBS:
            out[f"{h} subclass of {c}"] = (make(c, fn, subclass(c, h)), c)
    return out


def patterns(fn):
    """the other arguments"""
    kw = TABLE[fn][2]
    out = {"valid": kw, "zeros": {k: 0 for k in kw}, "None": {k: None for k in kw}, "text": {k: "text" for k in kw}, "not numbers": {k: Reject() for k in kw},
           "nan": {k: float("nan") for k in kw}, "empty arrays": {k: np.array([]) for k in kw}}
    return out if kw else {"valid": kw}


def units(tier):
    return [{"fn": f, "depth": 3 if tier == "quick" else 4} for f in TABLE]


def call(fn, obj, kw):
    target = TABLE[fn][0]
    if isinstance(obj, str) and obj == "missing":
        return getattr(M, fn)(**kw)
    return getattr(M, fn)(**{target: obj}, **kw)


def plain(r, names=None):
    """fields of the result (a subclass may have more)"""
    return tuple(x for x in norm(r)[2] if names is None or x[0] in names)


def run(u, ctx):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        explore(u, ctx)


def explore(u, ctx):
    fn = u["fn"]
    kw = TABLE[fn][2]
    bad, good = wrong(fn), right(fn)
    base = {c: plain(call(fn, make(c, fn), kw)) for c in TABLE[fn][1]}

    def accept(nm, hist=()):
        o, c = good[nm]
        ctx.step()
        info = dict(function=fn, history=[*hist, nm])
        with ctx.guard(f"{fn}:accepts:{nm}", f"{fn} of a {nm}", **info):
            r = plain(call(fn, o, kw), [x[0] for x in base[c]])
            if not same(r, base[c]):
                ctx.fail(f"{fn}:result:{nm}", f"{fn} of a {nm} gives {str(r)[:200]}, of a plain one {str(base[c])[:200]}", **info)
                return False
            return True
        return False

    def reject(nm, how, k, hist=()):
        ctx.step()
        info = dict(function=fn, history=[*hist, nm], other_arguments=how)
        try:
            r = call(fn, bad[nm], k)
        except ValueError:
            return True
        except Exception as e:
            ctx.fail(f"{fn}:{nm}:{how}", f"{fn} with {nm} as {TABLE[fn][0]} raises {type(e).__name__} ({str(e)[:100]}) instead of ValueError", **info)
            return False
        ctx.fail(f"{fn}:{nm}:{how}", f"{fn} with {nm} as {TABLE[fn][0]} returns {str(r)[:200]} instead of raising ValueError", **info)
        return False

    for nm in good:
        ctx.state((fn, nm))
        ctx.eval(key=(fn, nm))
        accept(nm) and ctx.trace()
    for nm in bad:
        for how, k in patterns(fn).items():
            ctx.state((fn, nm, how))
            ctx.eval(key=(fn, nm))
            reject(nm, how, k) and ctx.trace()
    # histories: what was accepted or rejected before does not matter
    twin = {"InverseGamma": "Gamma", "Gamma": "InverseGamma", "Beta": "BetaProportional", "Normal": "LogNormal", "NormalInverseGamma": "NormalGamma", "NormalGamma": "NormalInverseGamma"}
    some_bad = [x for x in ("None", "missing", "text", f"{twin.get(TABLE[fn][1][0])} instance", "Poisson instance", f"class {TABLE[fn][1][0]}", f"dataclass named {TABLE[fn][1][0]}",
                            f"namespace like {TABLE[fn][1][0]}", f"Poisson subclass named {TABLE[fn][1][0]}", f"list of {TABLE[fn][1][0]}") if x in bad]
    some_good = [n for n in good if " subclass" not in n or n.startswith(("plain", "wrong name", "same name"))][:6]
    if u["depth"] > 3:
        some_bad, some_good = some_bad[:7], some_good[:3]
    acts = [("good", g) for g in some_good] + [("bad", b) for b in some_bad]
    for hist in itertools.product(acts, repeat=u["depth"]):
        ok, names = True, []
        for kind, nm in hist:
            ok = (accept(nm, names) if kind == "good" else reject(nm, "valid", kw, names)) and ok
            names = names + [nm]
        ctx.trace(ok)
    ctx.sample(function=fn, accepted=list(good), rejected=list(bad)[:60], patterns=list(patterns(fn)))
