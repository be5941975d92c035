"""C13 number-like inputs: every subset of the arguments of every function replaced by objects that only do arithmetic."""

import itertools
import math
import sqlite3
from fractions import Fraction

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc import lattice as L
from mc.bcast import CALLS
from mc.spec import fields_of

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of subsets of number-like arguments, with strict symbolic objects, SQL run by a database, fractions and data-frame columns"
RULE = (
    "case = (function, subset of prior fields, data and known parameters given as number-like objects, kind of object, values); "
    "all subsets are enumerated; the expression returned is evaluated (symbolically, by SQLite on a table of rows, exactly, or per "
    "data-frame row) and compared with the scalar call; non-trivial = the subset is not empty"
)
ASSUMPTIONS = [
    "SQL: the database is SQLite, whose integer division truncates as in most databases",
    "scalar calls are judged by C01, C02, C04 and C06",
    "functions taking a maximum, logarithm or trigonometric function get number-like objects there only together with a replacement of that helper (C23)",
]
BOUNDS = {
    "quick": "every call, constructor, conversion, scaling and chain of one or two updates and a predictive: all subsets (up to 2^7; of more arguments the smallest and largest) x {strict symbolic, fraction, SQL column, SQL aggregate, pandas column} x 6 rows of values",
    "thorough": "the same with 3 x 6 rows of values",
}


class Num:
    """an expression that supports arithmetic and nothing else"""

    __slots__ = ("op", "args")
    __hash__ = None

    def __init__(self, op, *args):
        self.op, self.args = op, args

    def _bin(op, swap=False):
        def f(self, other):
            if not isinstance(other, (int, float, Num)) or isinstance(other, bool):
                if not isinstance(other, np.generic):
                    return NotImplemented
            return Num(op, other, self) if swap else Num(op, self, other)

        return f

    __add__, __radd__ = _bin("+"), _bin("+", True)
    __sub__, __rsub__ = _bin("-"), _bin("-", True)
    __mul__, __rmul__ = _bin("*"), _bin("*", True)
    __truediv__, __rtruediv__ = _bin("/"), _bin("/", True)
    __pow__ = _bin("**")
    __mod__ = _bin("%")  # angles
    __array_ufunc__ = None

    def __neg__(self):
        return Num("neg", self)

    def __bool__(self):
        raise TypeError("a symbolic expression has no truth value")

    def _no(self, *a, **k):
        raise TypeError("a symbolic expression cannot be compared")

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _no


def var(name):
    return Num("var", name)


def fun(name):
    return lambda *a: Num("call", name, *a)


FUNCS = {"max": max, "ln": math.log, "sin": math.sin, "cos": math.cos, "arctan2": math.atan2}


def value(e, env):
    if not isinstance(e, Num):
        return float(e)
    if e.op == "var":
        return float(env[e.args[0]])
    if e.op == "call":
        return FUNCS[e.args[0]](*[value(a, env) for a in e.args[1:]])
    if e.op == "neg":
        return -value(e.args[0], env)
    a, b = value(e.args[0], env), value(e.args[1], env)
    return a + b if e.op == "+" else a - b if e.op == "-" else a * b if e.op == "*" else a / b if e.op == "/" else a % b if e.op == "%" else a**b


class Derived:
    """constructors, conversions, scaled distributions and predictives of posteriors, in the form of the table of calls"""

    target, fn, const = "other", "", {}

    def __init__(self, name, sites, build, hs=()):
        self.name, self.sites, self.build, self.args, self.hs = name, sites, build, {}, hs

    def invoke(self, M, values):
        return self.build(values)


POS = [1, 0.5, 3, 20.25, 2, 7]
POS2 = [2, 1, 0.25, 5, 30, 4]
REAL = [0, -3, 2.5, 10, -0.25, 4]
FACTOR = [2, 3, 0.5, 10, 1, 4]


def derived():
    out = [
        Derived("Beta.from_mean", {"mean": [0.5, 0.25, 0.125, 0.75, 0.9, 0.3], "alpha": POS}, lambda v: D.Beta.from_mean(mean=v["mean"], alpha=v["alpha"])),
        Derived("Beta.from_successes_and_failures", {"s": [0, 1, 5, 7, 100, 3], "f": [2, 0, 9, 1, 3, 50]}, lambda v: D.Beta.from_successes_and_failures(successes=v["s"], failures=v["f"])),
        Derived("Gamma.from_occurrences_in_intervals", {"o": POS, "i": POS2}, lambda v: D.Gamma.from_occurrences_in_intervals(occurrences=v["o"], intervals=v["i"])),
        Derived("Normal.from_mean_and_variance", {"m": REAL, "v": POS}, lambda v: D.Normal.from_mean_and_variance(mean=v["m"], variance=v["v"])),
        Derived("Normal.from_mean_and_precision", {"m": REAL, "p": POS}, lambda v: D.Normal.from_mean_and_precision(mean=v["m"], precision=v["p"])),
        Derived("Normal.uninformative", {"s": POS}, lambda v: D.Normal.uninformative(sigma=v["s"])),
        Derived("ScaledInverseChiSquared.from_inverse_gamma", {"alpha": POS, "beta": POS2}, lambda v: D.ScaledInverseChiSquared.from_inverse_gamma(D.InverseGamma(**v))),
        Derived("ScaledInverseChiSquared.to_inverse_gamma", {"nu": POS, "sigma2": POS2}, lambda v: D.ScaledInverseChiSquared(**v).to_inverse_gamma()),
        Derived("ScaledInverseChiSquared round trip", {"nu": POS, "sigma2": POS2}, lambda v: D.ScaledInverseChiSquared.from_inverse_gamma(D.ScaledInverseChiSquared(**v).to_inverse_gamma())),
        Derived("NormalInverseGamma.from_inverse_gamma", {"mu": REAL, "alpha": POS, "beta": POS2, "nu": FACTOR},
                lambda v: D.NormalInverseGamma.from_inverse_gamma(mu=v["mu"], inverse_gamma=D.InverseGamma(alpha=v["alpha"], beta=v["beta"]), nu=v["nu"])),
        Derived("NormalInverseGamma.inverse_gamma", {"mu": REAL, "nu": FACTOR, "alpha": POS, "beta": POS2}, lambda v: D.NormalInverseGamma(**v).inverse_gamma),
        Derived("NormalGamma.gamma", {"mu": REAL, "lam": FACTOR, "alpha": POS, "beta": POS2}, lambda v: D.NormalGamma(**v).gamma),
        Derived("Poisson + Poisson", {"a": POS, "b": POS2}, lambda v: D.Poisson(v["a"]) + D.Poisson(v["b"])),
    ]
    for cls, f in (("Poisson", {"lam": POS}), ("Gamma", {"alpha": POS, "beta": POS2}), ("NegativeBinomial", {"n": FACTOR, "p": [0.5, 0.25, 1, 0.75, 0.125, 0.9]}), ("Exponential", {"lam": POS}), ("Normal", {"mu": REAL, "sigma": POS})):
        K = getattr(D, cls)
        out.append(Derived(f"{cls} * k", {**f, "k": FACTOR}, lambda v, K=K: K(**{n: x for n, x in v.items() if n != "k"}) * v["k"]))
        out.append(Derived(f"{cls} * k * k", {**f, "k": FACTOR}, lambda v, K=K: K(**{n: x for n, x in v.items() if n != "k"}) * v["k"] * v["k"]))
    # whole analyses: update, update again, predict
    for c in CALLS.values():
        if c.target != "prior" or c.fn == "hypergeometric_beta_binomial" or c.fn in HELPERS:
            continue
        preds = [q for q in CALLS.values() if q.fn == c.fn + "_predictive" and q.cls == c.cls]
        for q in preds:
            if q.const != c.const:
                continue
            for times in (1, 2):
                def build(v, c=c, q=q, times=times):
                    obj = getattr(D, c.cls)(**{k: v[f"prior.{k}"] for k in c.fields})
                    for _ in range(times):
                        obj = getattr(M, c.fn)(prior=obj, **{k: v[k] for k in c.args}, **c.const)
                    return getattr(M, q.fn)(distribution=obj, **{k: v["new." + k] for k in q.args}, **q.const)

                out.append(Derived(f"{q.name} after {times} of {c.name}", {**c.sites, **{"new." + k: x for k, x in q.args.items()}}, build))
    return {d.name: d for d in out}


# sites that go through a helper: replaced together with it only
HELPERS = {
    "uniform_pareto": ({"prior.x_m", "x_max"}, {"max_fn": "max"}),
    "pareto_gamma": ({"x_m"}, {"ln": "ln"}),
    "von_mises_known_concentration": ({"prior.a", "prior.b", "cos_total", "sin_total", "kappa"}, {"sin": "sin", "cos": "cos", "arctan2": "arctan2"}),
}


DERIVED = derived()


def units(tier):
    out = []
    for nm in [*CALLS, *DERIVED]:
        for kind in ("symbolic", "fraction", "sql", "sqlagg", "pandas", "mixed"):
            for shift in ((0,) if tier == "quick" else (0, 1, 2)):
                out.append({"kind": kind, "call": nm, "shift": shift})
    return out


def run(u, ctx):
    globals()["run_" + u["kind"]](u, ctx, CALLS[u["call"]] if u["call"] in CALLS else DERIVED[u["call"]])


def table(c, shift):
    """six rows of valid values"""
    names = list(c.sites)
    return [{n: c.sites[n][(i + j * (1 + shift) + shift) % 6] for j, n in enumerate(names)} for i in range(6)]


def subsets(names):
    some = range(len(names) + 1) if len(names) < 8 else (0, 1, 2, len(names) - 1, len(names))
    return [s for r in some for s in itertools.combinations(names, r)]


def want(c, row):
    return {k: v for k, v in fields_of(c.invoke(M, row)).items()}


def close(a, b, tol=1e-9):
    a, b = float(a), float(b)
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def angle_ok(c, k, a, b):
    return c.fn == "von_mises_known_concentration" and k == "b" and close(math.cos(a), math.cos(b), 1e-7) and close(math.sin(a), math.sin(b), 1e-7)


def compare(ctx, c, got, exp, kind, info):
    for k, w in exp.items():
        g = got[k]
        if isinstance(w, (bool, np.bool_)) or w is None:
            good = g is w or g == w
        else:
            good = close(g, w) or angle_ok(c, k, g, w)
        if not good:
            ctx.fail(f"{c.name}:{kind}", f"{k} evaluates to {g!r} instead of {w!r}", **info)
            return False
    return True


def call(c, values, sub, symbolic=None):
    """the call with helpers replaced where number-like objects reach them"""
    if isinstance(c, Derived):
        return c.invoke(M, values)
    hs, kw = HELPERS.get(c.fn, (set(), {}))
    extra = {}
    if hs & set(sub):
        extra = {k: (fun(v) if symbolic is None else symbolic[v]) for k, v in kw.items()}
    f = {k: values[f"{c.target}.{k}"] for k in c.fields}
    return getattr(M, c.fn)(**{c.target: getattr(D, c.cls)(**f)}, **{k: values[k] for k in c.args}, **c.const, **extra)


def run_symbolic(u, ctx, c):
    rows = table(c, u["shift"])
    exps = [want(c, r) for r in rows]
    for sub in subsets(list(c.sites)):
        info = dict(call=c.name, symbolic=sub)
        with ctx.guard(f"{c.name}:symbolic", f"{c.fn} on symbolic expressions", **info):
            for base in range(0, 6, 1 if len(c.sites) < 6 else 3):
                vals = dict(rows[base])
                vals.update({n: var(n) for n in sub})
                got = fields_of(call(c, vals, sub))
                for i in range(6):
                    # the expression holds for every row that agrees with the numeric arguments
                    env = {n: rows[i][n] for n in sub}
                    full = {**rows[base], **env}
                    exp = exps[base] if i == base else want(c, full)
                    ctx.eval(key=(c.name, sub, base, i) if sub else None)
                    vals_got = {k: v if isinstance(v, bool) or v is None else value(v, env) for k, v in got.items()}
                    if not compare(ctx, c, vals_got, exp, "symbolic", dict(info, numeric=rows[base], at=env)):
                        break
    ctx.sample(call=c.name, kind="symbolic", subsets=2 ** len(c.sites))


def run_fraction(u, ctx, c):
    rows = table(c, u["shift"])
    for sub in subsets(list(c.sites)):
        if HELPERS.get(c.fn, (set(),))[0] & set(sub) and c.fn != "uniform_pareto":
            continue
        for row in rows:
            vals = {n: (Fraction(v) if n in sub else v) for n, v in row.items()}
            info = dict(call=c.name, fractions=sub, values=row)
            ctx.eval(key=(c.name, sub, repr(row)) if sub else None)
            with ctx.guard(f"{c.name}:fraction", f"{c.fn} on fractions", **info):
                compare(ctx, c, fields_of(call(c, vals, sub, FUNCS)), want(c, row), "fraction", info)
    ctx.sample(call=c.name, kind="fraction")


def run_mixed(u, ctx, c):
    """symbolic and exact numbers together: a symbolic prior updated twice, data of either kind"""
    rows = table(c, u["shift"])
    names = list(c.sites)
    for sub in subsets(names)[:: 1 if len(names) < 6 else 3]:
        row = rows[len(sub) % 6]
        vals = {n: (var(n) if n in sub else np.float64(v) if i % 2 else np.int64(v) if float(v).is_integer() else v) for i, (n, v) in enumerate(row.items())}
        info = dict(call=c.name, symbolic=sub, rest="NumPy scalars", values=row)
        with ctx.guard(f"{c.name}:mixed", f"{c.fn} on symbolic expressions and NumPy scalars", **info):
            got = {k: v if isinstance(v, bool) or v is None else value(v, row) for k, v in fields_of(call(c, vals, sub)).items()}
            ctx.eval(key=(c.name, sub))
            compare(ctx, c, got, want(c, row), "mixed", info)
    if c.target != "prior" or c.fn in HELPERS or c.fn == "hypergeometric_beta_binomial" or isinstance(c, Derived):
        return
    # two updates in a row on a symbolic prior and symbolic data
    a, b = rows[0], rows[1]
    dat = list(c.args)
    known = [n for n in dat if c.empty and n in c.empty and n in ("alpha", "var", "precision", "mu", "beta", "r", "kappa", "x_m")]
    b = {**b, **{n: a[n] for n in known}}
    sa = {n: var(n) for n in c.sites}
    sb = {n: (sa[n] if n in known else var("2" + n)) for n in dat}
    info = dict(call=c.name, updates=2)
    with ctx.guard(f"{c.name}:twice", f"{c.fn} twice on symbolic expressions", **info):
        post = getattr(M, c.fn)(prior=call(c, sa, list(c.sites)), **sb, **c.const)
        num = getattr(M, c.fn)(prior=c.invoke(M, a), **{n: b[n] for n in dat}, **c.const)
        env = {**a, **{"2" + n: b[n] for n in dat}}
        got = {k: v if isinstance(v, bool) or v is None else value(v, env) for k, v in fields_of(post).items()}
        ctx.eval(key=(c.name, "twice"))
        compare(ctx, c, got, fields_of(num), "twice", info)
    ctx.sample(call=c.name, kind="mixed")


def col(n):
    return n.replace(".", "_")



def run_sql(u, ctx, c, agg=False):
    from pypika import Field, Query, Table
    from pypika import functions as fn

    rows = table(c, u["shift"])
    names = list(c.sites)
    hs = HELPERS.get(c.fn, (set(),))[0]
    con = sqlite3.connect(":memory:")
    for integers in (False, True):
        # a column of integers for every argument; real numbers where a row needs them
        rows = table(c, u["shift"])
        if integers:
            rows = [{k: (int(v) if float(v).is_integer() else v) for k, v in r.items()} for r in rows]
        con.execute("drop table if exists t")
        con.execute("create table t (id integer, %s)" % ", ".join(f'"{col(n)}" {"numeric" if integers else "real"}' for n in names))
        for i, r in enumerate(rows):
            con.execute(f"insert into t values (?{', ?' * len(names)})", [i, *[r[n] if integers else float(r[n]) for n in names]])
        t = Table("t")
        for sub in subsets(names):
            if hs & set(sub) or not sub:
                continue
            for base in range(0, 6, 1 if len(names) < 5 else 5):
                if agg:
                    fields = {n: (fn.Sum(t[col(n)]) if i % 2 else fn.Max(t[col(n)])) for i, n in enumerate(sub)}
                else:
                    fields = {n: t[col(n)] for n in sub}
                vals = {n: (fields[n] if n in sub else v) for n, v in rows[base].items()}
                info = dict(call=c.name, columns=sub, numeric={n: v for n, v in rows[base].items() if n not in sub}, integer_columns=integers)
                with ctx.guard(f"{c.name}:sql", f"{c.fn} on SQL expressions", **info):
                    got = fields_of(call(c, vals, sub))
                    sel, fixed = [], {}
                    for k, v in got.items():
                        if hasattr(v, "get_sql"):
                            sel.append((k, v))
                        else:
                            fixed[k] = v
                    if not sel:  # these arguments do not matter
                        compare(ctx, c, fixed, want(c, rows[base]), "sql", info)
                        continue
                    q = Query.from_(t).select(t.id, *[v.as_(k) for k, v in sel])
                    q = q.groupby(t.id) if agg else q
                    text = q.get_sql()
                    res = {r[0]: dict(zip([k for k, _ in sel], r[1:])) for r in con.execute(text)}
                    for i in range(6):
                        exp = want(c, {**rows[base], **{n: rows[i][n] for n in sub}})
                        ctx.eval(key=(c.name, sub, base, i, integers))
                        if not compare(ctx, c, {**fixed, **res[i]}, exp, "sql", dict(info, sql=text, row=rows[i])):
                            break
    con.close()
    ctx.sample(call=c.name, kind="sql", text=text if len(names) and "text" in locals() else None)


def run_sqlagg(u, ctx, c):
    run_sql(u, ctx, c, agg=True)


def run_pandas(u, ctx, c):
    import pandas as pd

    rows = table(c, u["shift"])
    names = list(c.sites)
    for index in (None, [10, 20, 30, 40, 50, 60], list("fabcde")):
        df = pd.DataFrame(rows, index=index)
        for sub in subsets(names):
            if not sub:
                continue
            for base in (0, 3):
                vals = {n: (df[n] if n in sub else v) for n, v in rows[base].items()}
                info = dict(call=c.name, columns=sub, index=index)
                with ctx.guard(f"{c.name}:pandas", f"{c.fn} on data-frame columns", **info):
                    # replacements of helpers are not needed: NumPy functions take columns
                    got = fields_of(c.invoke(M, vals))
                    ctx.eval(6, key=(c.name, sub, base, repr(index)))
                    for k, v in got.items():
                        if isinstance(v, pd.Series) and list(v.index) != list(df.index):
                            ctx.fail(f"{c.name}:index", f"the index of {k} is {list(v.index)}", **info)
                    for i in range(6):
                        exp = want(c, {**rows[base], **{n: rows[i][n] for n in sub}})
                        at = {k: (v.iloc[i] if isinstance(v, pd.Series) else v[i] if np.ndim(v) else v) for k, v in got.items()}
                        if not compare(ctx, c, at, exp, "pandas", dict(info, row=rows[i])):
                            break
    ctx.sample(call=c.name, kind="pandas")
