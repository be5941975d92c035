"""C17 plots: every history of setting bounds, indexing and plotting against a two-variable reference machine."""

import itertools
import warnings

import numpy as np

from conjugate import distributions as D
from mc.world import DISCRETE, UNI

ID = "C17"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of every history of bound, indexing and plotting operations up to a depth on the real objects and real axes, against a two-variable state machine"
RULE = (
    "state = (class, lower and upper bound of each object of the model machine, objects indexed so far); transition = one real operation; after "
    "each history every object is plotted on real axes and the curves are compared with the model bounds and with the density, mass or cumulative "
    "probability of each parameter element as a scalar distribution; other axes must stay as they were"
)
ASSUMPTIONS = [
    "integer bounds for discrete distributions and lower <= upper (other bounds are not judged)",
    "vector parameters are one-dimensional NumPy arrays, or lists where the dist attribute takes them",
    "an object made by indexing starts from its own default bounds",
    "heights agree to 1e-9; Dirichlet curves are estimates from samples and are compared with the exact marginal to 20% of its peak",
]
BOUNDS = {
    "quick": "22 classes: all histories of 2 operations out of 22 on two objects, then every plot; 14 parameter forms; 9 kinds of axes; every width of the bounds up to 40 and 8 widths up to 1024; all pairs of plots on one pair of axes",
    "thorough": "all histories of 3 operations; every width up to 100 and 23 widths up to 5001; triples of plots on one pair of axes",
}

CLASSES = [c for c in UNI if hasattr(getattr(D, c), "plot_cdf")]
# natural default bounds, from the parameters of one object
DEFAULT = {
    "Beta": lambda f: (0, 1),
    "Binomial": lambda f: (0, np.max(f["n"])),
    "Hypergeometric": lambda f: (0, np.max(f["N"])),
    "BetaBinomial": lambda f: (0, np.max(f["n"])),
    "BetaNegativeBinomial": lambda f: (0, np.max(f["n"])),
    "Uniform": lambda f: (np.min(f["low"]), np.max(f["high"])),
    "VonMises": lambda f: (-np.pi, np.pi),
}


def default(cls, f):
    return tuple(float(x) for x in DEFAULT[cls](f)) if cls in DEFAULT else (0.0, None)


def elements(f):
    """scalar parameters of each curve"""
    n = max([len(v) for v in f.values() if np.ndim(v) == 1], default=1)
    out = []
    for i in range(n):
        e = {}
        for k, v in f.items():
            v = np.asarray(v)
            v = v if v.ndim == 0 else v[i if len(v) > 1 else 0]
            e[k] = int(v) if v.dtype.kind in "iu" else float(v)
        out.append(e)
    return out


def kinds(cls):
    return ["pmf", "cdf", "pmf|", "cdf|"] if cls in DISCRETE else ["pdf", "cdf"]


_cache = {}


def heights(cls, e, kind, lo, hi, x):
    """(expected heights, heights by the known wrong formula of the conditional cdf or None)"""
    key = (cls, tuple(sorted(e.items())), kind, lo, hi, x.tobytes())
    if key not in _cache:
        if len(_cache) > 20000:
            _cache.clear()
        d = getattr(D, cls)(**e).dist
        y = np.reshape(getattr(d, kind.rstrip("|"))(x), x.shape).astype(float)
        legacy = None
        if kind == "pmf|":
            y = y / y.sum()
        if kind == "cdf|":
            legacy = y / y.sum()
            below = float(np.reshape(d.cdf(np.array([lo - 1.0])), ()))
            y = (y - below) / (y[-1] - below)
        _cache[key] = y, legacy
    return _cache[key]


def xs(cls, lo, hi):
    return np.arange(int(lo), int(hi) + 1, dtype=float) if cls in DISCRETE else None


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-9 * (1e-3 + np.abs(b)))))


def check_lines(ctx, cls, f, kind, bounds, lines, key, **info):
    """the drawn lines against the model"""
    lo, hi = bounds
    es = elements(f)
    info = dict(cls=cls, parameters=f, plot=kind, bounds=bounds, **info)
    if len(lines) != len(es):
        ctx.fail(f"{key}:curves", f"{cls} plot_{kind}: {len(lines)} curves for {len(es)} parameter elements", **info)
        return False
    ok = True
    for i, (l, e) in enumerate(zip(lines, es)):
        x, y = np.asarray(l.get_xdata(orig=True), float).ravel(), np.asarray(l.get_ydata(orig=True), float).ravel()
        want = xs(cls, lo, hi)
        if want is not None:
            if not same(x, want):
                ctx.fail(f"{key}:points", f"{cls} plot_{kind}: points {x[:3]}...{x[-2:]} instead of every integer from {lo} to {hi}", curve=i, **info)
                return False
        elif not (len(x) >= 20 and same(x[0], lo) and same(x[-1], hi) and np.all(np.diff(x) >= 0) and np.ptp(np.diff(x)) <= 0.5 * (hi - lo) and np.all((x >= lo - 1e-12 * (1 + abs(lo))) & (x <= hi + 1e-12 * (1 + abs(hi))))):
            ctx.fail(f"{key}:points", f"{cls} plot_{kind}: {len(x)} points from {x[0]!r} to {x[-1]!r} instead of {lo} to {hi}", curve=i, **info)
            return False
        want, legacy = heights(cls, e, kind, lo, hi, x)
        if kind.endswith("|") and not np.all(np.isfinite(want)):
            continue  # conditional on an event of probability zero
        if not same(y, want):
            if kind == "cdf|" and legacy is not None and same(y, legacy):
                ctx.fail("conditional-cdf:divided-by-sum", "plot_cdf(conditional=True) divides the cumulative probabilities by their sum", **info)
                continue
            j = int(np.argmax(np.abs(np.nan_to_num(y, nan=1e9) - want)))
            ctx.fail(f"{key}:heights:{kind}", f"{cls} plot_{kind}: curve {i} has height {y[j]!r} at {x[j]!r} instead of {want[j]!r}", curve=i, **info)
            ok = False
    return ok


class Canvas:
    """real axes that are emptied between plots"""

    def __init__(self, **kw):
        from matplotlib.figure import Figure

        self.fig = Figure()
        self.ax = self.fig.add_subplot(**kw)

    def plot(self, o, kind, ax=None, **kw):
        ax = ax if ax is not None else self.ax
        if kind.endswith("|"):
            kw["conditional"] = True
        n = len(ax.lines)
        r = getattr(o, f"plot_{kind.rstrip('|')}")(ax=ax, **kw)
        return r, list(ax.lines)[n:]

    def clear(self):
        for l in list(self.ax.lines):
            l.remove()


def actions(cls):
    """operations on the current object"""
    d = cls in DISCRETE
    hi = [3, 6, 0] if d else [3.5, 6, 0]
    lo = [1, -2, 0] if d else [1.25, -2, 0]
    out = []
    for v in lo:
        out.append(("set_min_value", v))
    for v in hi:
        out.append(("set_max_value", v))
    out += [("set_bounds", lo[0], hi[1]), ("set_bounds", lo[1], hi[2]), ("set_bounds", 0, hi[0]), ("min_value=", lo[0]), ("max_value=", hi[1]), ("set_bounds(upper=,lower=)", lo[1], hi[0])]
    out += [("index", 1), ("index", slice(1, None)), ("index", "mask"), ("other", None)]
    out += [("plot", k) for k in kinds(cls)]
    return out


def units(tier):
    out = []
    depth = 2 if tier == "quick" else 3
    for c in CLASSES:
        n = len(actions(c))
        step = n if tier == "quick" else 2
        for a in range(0, n, step):
            out.append({"kind": "history", "cls": c, "first": [a, min(a + step, n)], "depth": depth})
    out += [{"kind": "forms", "cls": c} for c in CLASSES]
    out += [{"kind": "axes", "cls": c} for c in CLASSES]
    out += [{"kind": "wide", "cls": c, "tier": tier} for c in CLASSES]
    out += [{"kind": "dirichlet"}]
    out += [{"kind": "described", "cls": c} for c in [*CLASSES, "Dirichlet"]]
    out += [{"kind": "together", "cls": c, "tier": tier} for c in [*CLASSES, "Dirichlet"]]
    return out


def run(u, ctx):
    import matplotlib

    matplotlib.use("Agg")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        {"history": run_history, "forms": run_forms, "axes": run_axes, "wide": run_wide, "dirichlet": run_dirichlet, "together": run_together, "described": run_described}[u["kind"]](u, ctx)


class Obj:
    """an object with its model state"""

    def __init__(self, cls, f, real=None):
        self.cls, self.f = cls, f
        self.real = real if real is not None else getattr(D, cls)(**f)
        self.lo, self.hi = default(cls, f)

    def judged(self):
        return self.hi is not None and self.lo <= self.hi


def run_history(u, ctx):
    cls = u["cls"]
    sp, vp = UNI[cls][0], {k: np.array(v) for k, v in UNI[cls][1].items()}
    acts = actions(cls)
    canvas = Canvas()

    def fields_at(f, key):
        key = np.array([True, False, True]) if isinstance(key, str) else key
        return {k: v[key] for k, v in f.items()}

    def step(objs, a, hist):
        """one operation on the real object and on the model; the last object is the current one"""
        o = objs[-1]
        op = a[0]
        ctx.step()
        info = dict(cls=cls, history=hist)
        r = o.real
        if op == "set_min_value":
            r, o.lo = o.real.set_min_value(a[1]), a[1]
        elif op == "set_max_value":
            r, o.hi = o.real.set_max_value(a[1]), a[1]
        elif op == "set_bounds":
            r, (o.lo, o.hi) = o.real.set_bounds(a[1], a[2]), a[1:]
        elif op == "set_bounds(upper=,lower=)":
            r, (o.lo, o.hi) = o.real.set_bounds(upper=a[2], lower=a[1]), a[1:]
        elif op == "min_value=":
            o.real.min_value = o.lo = a[1]
        elif op == "max_value=":
            o.real.max_value = o.hi = a[1]
        elif op == "index":
            if np.ndim(next(iter(o.f.values()))) == 0 or len(next(iter(o.f.values()))) < 3:
                return True
            f = fields_at(o.f, a[1])
            key = np.array([True, False, True]) if isinstance(a[1], str) else a[1]
            objs.append(Obj(cls, f, o.real[key]))
        elif op == "other":
            objs.insert(0, objs.pop())
        elif op == "plot":
            return plot(objs, o, a[1], hist)
        if r is not o.real and op.startswith("set"):
            ctx.fail(f"{cls}:chain", f"{op} returned another object", **info)
            return False
        return True

    def plot(objs, o, kind, hist):
        if not o.judged():
            if o.hi is None:
                n = len(canvas.ax.get_children())
                try:
                    canvas.plot(o.real, kind)
                except ValueError:
                    if len(canvas.ax.get_children()) != n:
                        ctx.fail(f"{cls}:drawn", f"plot_{kind} without an upper bound raised ValueError after drawing", cls=cls, history=hist)
                        return False
                    return True
                except Exception as e:
                    ctx.fail(f"{cls}:no-upper", f"plot_{kind} without an upper bound raised {type(e).__name__}: {e}", cls=cls, history=hist)
                    return False
                ctx.fail(f"{cls}:no-upper", f"plot_{kind} without an upper bound raised nothing", cls=cls, history=hist)
                return False
            return True
        with ctx.guard(f"{cls}:plot:{kind}", cls=cls, history=hist, parameters=o.f, bounds=(o.lo, o.hi)):
            r, lines = canvas.plot(o.real, kind)
            if r is not canvas.ax:
                ctx.fail(f"{cls}:returned", f"plot_{kind} did not return the axes it was given", history=hist)
                return False
            return check_lines(ctx, cls, o.f, kind, (o.lo, o.hi), lines, f"{cls}:history", history=hist)
        return False

    n = 0
    for a0 in acts[u["first"][0] : u["first"][1]]:
        for rest in itertools.product(acts, repeat=u["depth"] - 1):
            hist = [str(x) for x in (a0, *rest)]
            for start in ("vector", "scalar"):
                objs = [Obj(cls, sp), Obj(cls, vp)] if start == "vector" else [Obj(cls, vp), Obj(cls, sp)]
                ok = True
                for k, a in enumerate((a0, *rest)):
                    ok = ok and step(objs, a, [start, *hist[: k + 1]])
                if not ok:
                    continue
                # every object in the end
                for i, o in enumerate(objs):
                    for kind in kinds(cls)[: 1 if i < len(objs) - 1 else 4]:
                        if kind == "cdf" and u["depth"] > 2 and cls not in ("Normal", "Binomial"):
                            continue
                        ctx.step()
                        ok = plot(objs, o, kind, [start, *hist, f"object {i}"]) and ok
                ctx.state((cls, start, tuple((o.lo, o.hi, len(elements(o.f))) for o in objs)))
                ctx.eval(key=(cls, start, tuple(hist)))
                ctx.trace(ok)
                n += 1
                canvas.clear()
                if n % 400 == 0:
                    canvas = Canvas()
    ctx.sample(cls=cls, last_history=hist, operations=[str(a) for a in acts])


def forms(cls):
    """forms of the parameters: scalars of every type, vectors of every length, vectors next to scalars"""
    sp, vp, _ = UNI[cls]
    ks = list(sp)
    whole = {k: (v if isinstance(v, int) else max(1, round(v))) for k, v in sp.items()}
    if cls in ("NegativeBinomial", "Binomial", "Geometric", "Hypergeometric"):
        whole = {k: (sp[k] if k == "p" else whole[k]) for k in sp}
    out = {
        "python": sp,
        "integers": whole,
        "floats": {k: float(v) for k, v in sp.items()},
        "np.float64": {k: np.float64(v) for k, v in sp.items()},
        "np.int64": {k: np.int64(v) if isinstance(v, int) else v for k, v in whole.items()},
        "0-d": {k: np.array(v) for k, v in sp.items()},
    }

    def cycle(n):
        return {k: np.array([v[i % 3] for i in range(n)]) for k, v in vp.items()}

    for n in (1, 2, 3, 12):
        out[f"vectors of {n}"] = cycle(n)
    many = 5 if cls in DISCRETE else 100  # as many curves as points
    out["as many curves as points"] = cycle(many)
    for k in ks:
        out[f"vector {k} only"] = {**sp, k: cycle(4)[k]}
        out[f"scalar {k} only"] = {**cycle(4), k: sp[k]}
        out[f"integer {k} only"] = {**cycle(4), k: whole[k]}
    if cls in ("Beta", "NegativeBinomial", "Poisson", "Geometric", "Normal", "StudentT", "Lomax", "InverseGamma"):
        out["lists"] = {k: list(v) for k, v in vp.items()}
        out["list of one"] = {k: [v[1]] for k, v in vp.items()}
    if cls == "Hypergeometric":
        out = {k: v for k, v in out.items() if not k.startswith(("vector ", "integer", "scalar "))}
        out["vector n only"] = {**sp, "n": np.array([6, 7, 3])}
    if cls == "Uniform":
        out = {k: v for k, v in out.items() if not k.startswith(("vector ", "integer", "scalar "))}
        out["vector high only"] = {"low": -1, "high": np.array([3.0, 2.5])}
        out["vector low only"] = {"low": np.array([-1.0, -4.0]), "high": 3}
    if cls == "Pareto":
        out = {k: v for k, v in out.items() if not k.startswith("integer")}
    return out


def run_forms(u, ctx):
    cls = u["cls"]
    bounds = [None, (0, 4), (1, 30)] if cls in DISCRETE else [None, (0.25, 4.25), (-3, 2), (np.float64(0.5), np.int64(7)), (-1e-3, 1e-3), (1e3, 2e3)]
    if cls in DISCRETE:
        bounds += [(-3, 2), (2, 2), (np.int64(1), np.int64(5)), (0.0, 5.0), (100, 140)]
    for nm, f in forms(cls).items():
        for b in bounds:
            if b is None and cls not in DEFAULT:
                continue
            for kind in kinds(cls):
                ctx.state((cls, nm, b, kind))
                ctx.eval(key=(cls, nm, str(b), kind))
                ctx.step()
                o = Obj(cls, f)
                if b is not None:
                    o.real.set_bounds(*b)
                    o.lo, o.hi = map(float, b)
                canvas = Canvas()
                with ctx.guard(f"{cls}:form:{nm}", cls=cls, parameters=f, plot=kind, bounds=b):
                    r, lines = canvas.plot(o.real, kind)
                    check_lines(ctx, cls, f, kind, (o.lo, o.hi), lines, f"{cls}:form:{nm}", form=nm) and ctx.trace()
    ctx.sample(cls=cls, forms=list(forms(cls)))


WIDE = {
    "Binomial": [{"n": 600, "p": 0.5}, {"n": 3000, "p": np.array([0.25, 0.75])}],
    "BetaBinomial": [{"n": 700, "alpha": 2.0, "beta": 3.0}, {"n": 5000, "alpha": np.array([2.0, 4.0]), "beta": 3.0}],
    "Hypergeometric": [{"N": 900, "k": 500, "n": 400}],
    "Poisson": [{"lam": 300.0}, {"lam": np.array([5.0, 900.0])}],
    "NegativeBinomial": [{"n": 50, "p": 0.1}],
    "Geometric": [{"p": 0.005}],
    "Uniform": [{"low": -1000.0, "high": 5000.0}],
}


def run_wide(u, ctx):
    """every width of the bounds up to 60 and wide ones, natural bounds of wide distributions included"""
    cls = u["cls"]
    sp = UNI[cls][0]
    widths = [*range(0, 41), 99, 100, 127, 128, 249, 251, 501, 1024]
    if u["tier"] == "thorough":
        widths = [*range(0, 101), 127, 128, 199, 200, 249, 250, 251, 256, 257, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1024, 2047, 2500, 5001]
    for j, f in enumerate([sp, *WIDE.get(cls, [])]):
        for lo, w in itertools.product([0, 1, -7, 40], [None, *widths]):
            if w is None and (cls not in DEFAULT or lo):
                continue
            if w is not None and lo and (w > 100 or j and u["tier"] == "quick"):
                continue
            kind = kinds(cls)[(lo + w + j) % 2] if w is not None and u["tier"] == "quick" else None
            for k in [kind] if kind else kinds(cls):
                ctx.state((cls, str(f), lo, w, k))
                ctx.eval(key=(cls, str(f), lo, w, k))
                ctx.step()
                o = Obj(cls, f)
                if w is not None:
                    o.real.set_bounds(lo, lo + w)
                    o.lo, o.hi = float(lo), float(lo + w)
                canvas = Canvas()
                with ctx.guard(f"{cls}:wide", cls=cls, parameters=f, plot=k, lower=lo, width=w):
                    r, lines = canvas.plot(o.real, k)
                    check_lines(ctx, cls, f, k, (o.lo, o.hi), lines, f"{cls}:wide") and ctx.trace()
    ctx.sample(cls=cls, widths=widths)


def run_axes(u, ctx):
    """on which axes a plot appears"""
    import matplotlib.pyplot as plt

    cls = u["cls"]
    f = {k: np.array(v) for k, v in UNI[cls][1].items()}
    b = (0, 4) if cls in DISCRETE else (0.25, 4.25)

    def figures():
        return {n: plt.figure(n) for n in plt.get_fignums()}

    def polar(k):
        return k.startswith("polar")

    def setups():
        def two():
            _, (a, c) = plt.subplots(1, 2)
            return [a, c]

        def inset():
            _, a = plt.subplots()
            return [a, a.inset_axes([0.5, 0.5, 0.4, 0.4])]

        def twin():
            _, a = plt.subplots()
            return [a, a.twinx()]

        def sub():
            g = plt.figure()
            s = g.subfigures(1, 2)
            return [s[0].subplots(), s[1].subplots()]

        def figs():
            return [plt.subplots()[1], plt.subplots()[1]]

        def logscale():
            _, (a, c) = plt.subplots(1, 2)
            c.set_yscale("log")
            return [a, c]

        def polars():
            g = plt.figure()
            return [g.add_subplot(121), g.add_subplot(122, projection="polar")]

        def used():
            _, (a, c) = plt.subplots(1, 2)
            a.plot([0, 1], [5, 5])
            c.plot([0, 1], [5, 5])
            return [a, c]

        return {"subplots": two, "figures": figs, "inset": inset, "twin": twin, "subfigures": sub, "polar": polars, "used": used, "log scale": logscale}

    for nm, make in setups().items():
        if nm == "polar" and cls in DISCRETE:
            continue
        for kind in kinds(cls):
            for which, given, current in itertools.product((0, 1), (True, False), (0, 1)):
                if not given and (which != current or nm in ("inset", "subfigures")):
                    continue
                plt.close("all")
                axes = make()
                if nm != "inset":
                    plt.sca(axes[current])
                before = [list(a.lines) for a in axes]
                nfig = len(plt.get_fignums())
                o = Obj(cls, f)
                o.real.set_bounds(*b)
                info = dict(axes=nm, given=given, which=which, current=current, cls=cls, plot=kind)
                ctx.state((cls, nm, kind, which, given, current))
                ctx.eval(key=(cls, nm, kind, which, given, current))
                ctx.step()
                kw = {"conditional": True} if kind.endswith("|") else {}
                with ctx.guard(f"{cls}:axes:{nm}", **info):
                    m = getattr(o.real, f"plot_{kind.rstrip('|')}")
                    r = m(ax=axes[which], **kw) if given else m(**kw) if which else m(ax=None, **kw)
                    new = [l for l in axes[which].lines if l not in before[which]]
                    others = [len(a.lines) != len(x) for i, (a, x) in enumerate(zip(axes, before)) if i != which]
                    if r is not axes[which]:
                        ctx.fail(f"{cls}:axes:{nm}:returned", f"plot_{kind} returned other axes", **info)
                    elif any(others) or len(plt.get_fignums()) != nfig:
                        ctx.fail(f"{cls}:axes:{nm}:others", f"plot_{kind} drew on other axes or figures", **info)
                    elif any(x not in axes[which].lines for x in before[which]):
                        ctx.fail(f"{cls}:axes:{nm}:removed", f"plot_{kind} removed earlier curves", **info)
                    else:
                        check_lines(ctx, cls, f, kind, b, new, f"{cls}:axes:{nm}", **{k: v for k, v in info.items() if k not in ("cls", "plot")}) and ctx.trace()
    # no figure yet
    for kind in kinds(cls):
        plt.close("all")
        o = Obj(cls, f)
        o.real.set_bounds(*b)
        ctx.step()
        kw = {"conditional": True} if kind.endswith("|") else {}
        with ctx.guard(f"{cls}:axes:none", cls=cls, plot=kind):
            r = getattr(o.real, f"plot_{kind.rstrip('|')}")(**kw)
            if len(plt.get_fignums()) != 1 or r is not plt.gca():
                ctx.fail(f"{cls}:axes:none", f"plot_{kind} without figures did not return the current axes", cls=cls)
            else:
                check_lines(ctx, cls, f, kind, b, list(r.lines), f"{cls}:axes:none") and ctx.trace()
    # no upper bound: nothing is drawn, neither on the axes given nor on the current ones, and plotting works afterwards
    if cls not in DEFAULT:
        for kind, given, lower in itertools.product(kinds(cls), (True, False), (None, 0, 1, -2)):
            plt.close("all")
            axes = plt.subplots(1, 2)[1]
            n = [len(a.get_children()) for a in axes]
            look = [(a.get_xlabel(), a.get_ylabel(), a.get_xlim(), a.get_ylim()) for a in axes]
            o = Obj(cls, f)
            if lower is not None:
                o.real.set_min_value(lower)
            kw = {"conditional": True} if kind.endswith("|") else {}
            info = dict(cls=cls, plot=kind, given=given, lower=lower)
            ctx.state((cls, "no upper", kind, given, lower))
            ctx.step(2)
            m = getattr(o.real, f"plot_{kind.rstrip('|')}")
            try:
                m(ax=axes[0], **kw) if given else m(**kw)
            except ValueError:
                if [len(a.get_children()) for a in axes] != n or look != [(a.get_xlabel(), a.get_ylabel(), a.get_xlim(), a.get_ylim()) for a in axes]:
                    ctx.fail(f"{cls}:drawn", f"plot_{kind} without an upper bound changed the axes", **info)
            except Exception as e:
                ctx.fail(f"{cls}:no-upper", f"plot_{kind} without an upper bound raised {type(e).__name__}: {e}", **info)
            else:
                ctx.fail(f"{cls}:no-upper", f"plot_{kind} without an upper bound raised nothing", **info)
            with ctx.guard(f"{cls}:after", **info):
                o.real.set_max_value(4)
                r = m(ax=axes[0], **kw)
                check_lines(ctx, cls, f, kind, (lower or 0, 4), list(r.lines), f"{cls}:after", given=given) and ctx.trace()
    plt.close("all")
    ctx.sample(cls=cls, axes=list(setups()))


def run_described(u, ctx):
    """what the axes say about the curves: kind of height, conditioning bounds, integers at the ticks, mark"""
    import re

    from matplotlib.figure import Figure

    cls = u["cls"]
    if cls == "Dirichlet":
        fs, ks, bs, marks = [{"alpha": np.array([2.0, 3.0, 4.0])}], ["pdf"], [(0, 1), (0.25, 0.75)], [None]
    else:
        fs, ks = [UNI[cls][0], {k: np.array(v) for k, v in UNI[cls][1].items()}], kinds(cls)
        d = cls in DISCRETE
        bs = [(0, 6), (1, 4), (0, 14), (0, 15), (2, 30), (3, 17)] if d else [(0.25, 2.5), (0, 1)]
        marks = [None, "s--", "^:", "o"] if d else [None]
    plots = list(itertools.product(fs, ks, bs, marks))
    first = [None] + [(f, k, b, m) for f, k, b, m in plots if f is fs[0] and b == bs[0] and m in (None, "s--")]
    for before, last in itertools.product(first, plots):
        ax = Figure().add_subplot()
        for f, k, b, m in [p for p in (before, last) if p]:
            o = getattr(D, cls)(**f).set_bounds(*b)
            kw = {"conditional": True} if k.endswith("|") else {}
            if m is not None:
                kw["mark"] = m
            if cls == "Dirichlet":
                kw = {"samples": 60, "random_state": 1}
            info = dict(cls=cls, parameters=f, plot=k, bounds=b, mark=m, after=before and [before[1], before[2], before[3]])
            n = len(ax.lines)
            ctx.step()
            with ctx.guard(f"{cls}:described", **info):
                getattr(o, f"plot_{k.rstrip('|')}")(ax=ax, **kw)
        f, k, b, m = last
        ctx.state((cls, str(f), k, b, m, str(before)))
        text = ax.get_ylabel().lower()
        ok = True
        if ("cumulative" in text) != k.startswith("cdf") or ("conditional" in text) != k.endswith("|"):
            ok = ctx.fail(f"{cls}:described:height", f"plot_{k} calls its heights {ax.get_ylabel()!r}", **info)
        if k.endswith("|"):
            numbers = [float(x) for x in re.findall(r"-?\d+(?:\.\d+)?", text)]
            if numbers != [float(b[0]), float(b[1])]:
                ok = ctx.fail(f"{cls}:described:condition", f"plot_{k} on {b} names the condition {ax.get_ylabel()!r}", **info)
        if cls in DISCRETE:
            major, minor = sorted(float(x) for x in ax.get_xticks()), sorted(float(x) for x in ax.get_xticks(minor=True))
            every = [float(x) for x in range(b[0], b[1] + 1)]
            if not set(major) <= set(every) or major[:1] != every[:1] or (before is None and not set(major) | set(minor) >= set(every)):
                ok = ctx.fail(f"{cls}:described:ticks", f"plot_{k} on {b} has ticks {major} and {minor}", **info)
            marker, line = {None: ("o", "-"), "s--": ("s", "--"), "^:": ("^", ":"), "o": ("o", "None")}[m]
            if any((l.get_marker(), l.get_linestyle()) != (marker, line) for l in ax.lines[n:]):
                ok = ctx.fail(f"{cls}:described:mark", f"plot_{k} with mark {m!r} draws {[(l.get_marker(), l.get_linestyle()) for l in ax.lines[n:]]}", **info)
        if ok:
            ctx.trace()
    ctx.sample(cls=cls, plots=len(plots), first=len(first))


def visible(ctx, ax, key, **info):
    """every finite point of every curve lies within the limits of the axes"""
    (x0, x1), (y0, y1) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for i, l in enumerate(ax.lines):
        x, y = np.asarray(l.get_xdata(orig=True), float).ravel(), np.asarray(l.get_ydata(orig=True), float).ravel()
        fine = np.isfinite(x) & np.isfinite(y)
        fine &= y >= 0  # the circular cdf of a von Mises distribution is negative below its centre
        x, y = x[fine], y[fine]
        if not len(x):
            continue
        tx, ty = 1e-6 * (x1 - x0), 1e-6 * (y1 - y0)
        # a polar axes shows every angle
        inside = ax.name == "polar" or (x.min() >= x0 - tx and x.max() <= x1 + tx)
        if not inside or y.min() < y0 - ty or y.max() > y1 + ty:
            ctx.fail(key, f"curve {i} spans [{x.min():.4g}, {x.max():.4g}] x [{y.min():.4g}, {y.max():.4g}], the axes show [{x0:.4g}, {x1:.4g}] x [{y0:.4g}, {y1:.4g}]", **info)
            return False
    return True


def run_together(u, ctx):
    """every sequence of plots on one pair of axes whose limits the user left alone: all curves can be seen"""
    from matplotlib.figure import Figure

    # (class, fields, bounds)
    low = {"alpha": 2.0, "beta": 2.0}
    pool = {
        "Beta": [low, {"alpha": 60.0, "beta": 40.0}, {"alpha": np.array([2.0, 30.0]), "beta": np.array([3.0, 70.0])}],
        "Gamma": [{"alpha": 2.0, "beta": 0.25}, {"alpha": 90.0, "beta": 30.0}],
        "Normal": [{"mu": 0.0, "sigma": 3.0}, {"mu": 2.0, "sigma": 0.1}],
        "Poisson": [{"lam": 12.0}, {"lam": 0.5}],
        "Binomial": [{"n": 20, "p": 0.5}, {"n": 4, "p": 0.95}],
        "Dirichlet": [{"alpha": np.array([2.0, 3.0, 4.0])}, {"alpha": np.array([80.0, 100.0])}],
        "VonMises": [{"mu": 0.5, "kappa": 0.5}, {"mu": -1.0, "kappa": 40.0}],
    }
    cls = u["cls"]
    own = list(pool.get(cls, []))
    if cls != "Dirichlet" and (cls not in pool or u["tier"] != "quick"):
        own += [UNI[cls][0], {k: np.array(v) for k, v in UNI[cls][1].items()}]
    plots = [(cls, f, k) for f in own for k in (["pdf"] if cls == "Dirichlet" else kinds(cls))]
    others = [(c, f, k) for c in pool for f in pool[c] for k in (["pdf"] if c == "Dirichlet" else kinds(c)[:2] if u["tier"] != "quick" else kinds(c)[:1]) if c != cls]
    bounds = {c: [(0, 25)] if c in DISCRETE else [None] if c in ("Beta", "VonMises", "Uniform", "Dirichlet") else [(-4, 8)] for c in [*CLASSES, "Dirichlet"]}
    if u["tier"] != "quick" and cls != "Dirichlet":
        bounds[cls] = [*bounds[cls], (1, 3)]
    depth = 2 if u["tier"] == "quick" else 3

    def draw(ax, c, f, k, b):
        o = getattr(D, c)(**f)
        if b is not None:
            o.set_bounds(*b)
        kw = {"conditional": True} if k.endswith("|") else {}
        if c == "Dirichlet":
            kw = {"samples": 60, "random_state": 1}
        getattr(o, f"plot_{k.rstrip('|')}")(ax=ax, **kw)

    mine = [(*p, b) for p in plots for b in bounds[cls]]
    rest = [(*p, b) for p in others for b in bounds[p[0]]]
    seqs = list(itertools.product(mine, [*mine, *rest])) + list(itertools.product(rest, mine))
    if depth == 3:
        seqs += list(itertools.product(mine, mine, mine))[:3000]
    for polar in (False, True):
        if polar and cls not in ("VonMises", "Normal"):
            continue
        for seq in seqs:
            ax = Figure().add_subplot(**({"projection": "polar"} if polar else {}))
            names = [(c, {k: np.asarray(v).tolist() for k, v in f.items()}, k2, b) for c, f, k2, b in seq]
            ctx.state((polar, str(names)))
            with ctx.guard(f"{cls}:together", plots=names, polar=polar):
                for c, f, k, b in seq:
                    draw(ax, c, f, k, b)
                    ctx.step()
                visible(ctx, ax, f"{cls}:together:hidden", plots=names, polar=polar) and ctx.trace()
    ctx.sample(cls=cls, plots=len(mine), others=len(rest), sequences=len(seqs))


def run_dirichlet(u, ctx):
    """one curve per category, on the bounds, close to its marginal beta density"""
    import matplotlib.pyplot as plt
    from scipy import stats

    alphas = [[4.0, 6.0, 10.0], [4, 3], [3.0, 3.0, 3.0, 3.0, 2.0], [20.0, 10.0], [2.5] * 12]
    for alpha, bounds, seed, given in itertools.product(alphas, [None, (0, 0.5), (0.25, 0.75), (-0.5, 1.5)], [0, 7], [True, False]):
        plt.close("all")
        axes = plt.subplots(1, 2)[1]
        o = D.Dirichlet(alpha=np.array(alpha))
        if bounds:
            o.set_bounds(*bounds)
        lo, hi = bounds or (0, 1)
        info = dict(alpha=alpha, bounds=bounds, seed=seed, given=given)
        ctx.state((tuple(alpha), bounds, seed, given))
        ctx.eval(key=(tuple(alpha), bounds, seed))
        ctx.step()
        with ctx.guard("Dirichlet", **info):
            r = o.plot_pdf(ax=axes[0], samples=4000, random_state=seed) if given else o.plot_pdf(samples=4000, random_state=seed)
            want_ax = axes[0] if given else axes[1]
            if r is not want_ax or len(axes[1 if given else 0].lines):
                ctx.fail("Dirichlet:axes", "plot_pdf used other axes", **info)
            if len(r.lines) != len(alpha):
                ctx.fail("Dirichlet:curves", f"{len(r.lines)} curves for {len(alpha)} categories", **info)
                continue
            for i, l in enumerate(r.lines):
                x, y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
                want = stats.beta(alpha[i], sum(alpha) - alpha[i]).pdf(x)
                if not (same(x[0], lo) and same(x[-1], hi) and len(x) >= 20):
                    ctx.fail("Dirichlet:points", f"points from {x[0]} to {x[-1]} instead of {lo} to {hi}", **info)
                elif np.max(np.abs(y - want)) > 0.2 * max(np.max(want), stats.beta(alpha[i], sum(alpha) - alpha[i]).pdf(np.linspace(0, 1, 200)).max()):
                    ctx.fail("Dirichlet:heights", f"curve {i} differs from its marginal density by {np.max(np.abs(y - want)):.3f}", curve=i, **info)
                else:
                    ctx.trace()
    plt.close("all")
    ctx.sample(alphas=alphas)
