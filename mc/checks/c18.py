"""C18 labels, colours and other options of plots: every combination of forms, and every history of plots on one axes."""

import functools
import itertools
import warnings

import numpy as np

from conjugate import distributions as D
from mc.world import DISCRETE, UNI

ID = "C18"
LEVEL = "model_checking"
TECHNIQUE = "exhaustive enumeration of label form x colour form x curve count x plot kind on real axes, and of all histories of plots on shared axes up to a depth, against a naming model"
RULE = (
    "state = (plot kind, form and number of the parameters, form of label, form of colour) or (sequence of such plots on one axes); transition = "
    "one real plot; after it every curve's label, legend entry, colour and line properties are compared with a naming model, those of earlier plots included"
)
ASSUMPTIONS = [
    "an iterable of labels has as many labels as there are curves; a list of colours may be longer or shorter (only its first colours are judged)",
    "colours are compared as RGBA values",
]
BOUNDS = {
    "quick": "9 plot kinds x 20 parameter forms (1 to 101 curves) x 24 label forms x 26 colour forms (pairwise product for up to 12 curves); histories of 2 plots over 30 forms; every class",
    "thorough": "histories of 3 plots, full products",
}


class Callable_:
    """callable that also records its arguments"""

    def __init__(self, f):
        self.f, self.calls = f, []

    def __call__(self, i):
        self.calls.append(i)
        return self.f(i)


class Both(list):
    """a callable object"""

    def __call__(self, i):
        return f"called {i}"


def suffix(s, n):
    return [s] if n == 1 else [f"{s} {i}" for i in range(1, n + 1)]


def names(n):
    return [f"curve {chr(65 + i % 26)}{i}" for i in range(n)]


def labels(n):
    """form -> (argument, expected labels)"""
    import pandas as pd

    ns = names(n)
    out = {
        "omitted": ("omitted", [None] * n),
        "None": (None, [None] * n),
        "text": ("some text", suffix("some text", n)),
        "number text": ("10", suffix("10", n)),
        "braces": ("{0} %s %d {i} $x$", suffix("{0} %s %d {i} $x$", n)),
        "space": (" ", suffix(" ", n)),
        "np.str_": (np.str_("np"), suffix("np", n)),
        "unicode": ("λ=½", suffix("λ=½", n)),
        "list": (list(ns), ns),
        "tuple": (tuple(ns), ns),
        "array": (np.array(ns), ns),
        "object array": (np.array(ns, dtype=object), ns),
        "series": (pd.Series(ns, index=range(5, 5 + n)), ns),
        "index": (pd.Index(ns), ns),
        "dict": (dict.fromkeys(ns, 0), ns),
        "keys": (dict.fromkeys(ns).keys(), ns),
        "values": (dict(enumerate(ns)).values(), ns),
        "generator": ((x for x in ns), ns),
        "map": (map(str, ns), ns),
        "equal labels": (["same"] * n, ["same"] * n),
        "one letter each": ([chr(97 + i % 26) for i in range(n)], [chr(97 + i % 26) for i in range(n)]),
        "lambda": (lambda i: f"number {i}", [f"number {i}" for i in range(n)]),
        "recorded": (Callable_(lambda i: f"rec {i * i}"), [f"rec {i * i}" for i in range(n)]),
        "partial": (functools.partial("{}-{}".format, "p"), [f"p-{i}" for i in range(n)]),
        "bound method": (ns.__getitem__, ns),
        "str.format": ("f {}".format, [f"f {i}" for i in range(n)]),
        "builtin": (str, [str(i) for i in range(n)]),
        "callable with None": (lambda i: None if i % 2 else f"even {i}", [None if i % 2 else f"even {i}" for i in range(n)]),
        "list with None": ([None if i % 2 else f"even {i}" for i in range(n)], [None if i % 2 else f"even {i}" for i in range(n)]),
    }
    if n == 1:
        del out["list with None"]
    return out


CYCLE = ["red", "#00ff00", (0.0, 0.0, 1.0), (0.5, 0.25, 0.125, 0.5), "C3", "0.25", "xkcd:sky blue", "tab:olive", "k", "#abc", ("red", 0.25), "teal"]


def colors(n):
    """form -> (argument, expected colours; None where not judged)"""
    one = {
        "letter": "g", "name": "teal", "hex": "#12ab34", "short hex": "#f0a", "hex alpha": "#12ab3480", "grey": "0.75", "C1": "C1", "tab": "tab:purple", "xkcd": "xkcd:sky blue",
        "rgb tuple": (0.1, 0.2, 0.5), "rgb list": [0.1, 0.2, 0.5], "rgb array": np.array([0.1, 0.2, 0.5]), "rgba tuple": (0.1, 0.2, 0.5, 0.25), "rgba array": np.array([0.1, 0.2, 0.5, 0.25]),
        "integers": (1, 0, 0), "with alpha": ("teal", 0.5), "none": "none", "upper case": "#ABCDEF", "capital letter name": "rebeccapurple",
    }
    out = {"omitted": ("omitted", None), "None": (None, None)}
    for k, v in one.items():
        out[k] = (v, [v] * n)
    c = [CYCLE[i % len(CYCLE)] for i in range(n)]
    out["list"] = (list(c), c)
    out["tuple"] = (tuple(c), c)
    out["generator"] = ((x for x in c), c)
    out["object array"] = (np.array(["red", "lime", "blue", "k"][: max(n, 2)] * n, dtype=object)[: max(n, 5)], (["red", "lime", "blue", "k"][: max(n, 2)] * n)[:n])
    rgb = np.array([[(i % 5) / 4, (i % 3) / 2, (i % 2) / 1] for i in range(n)])
    out["rgb rows"] = (rgb, [tuple(r) for r in rgb])
    out["list of hex"] = ([f"#{i * 2 + 1:02x}4080" for i in range(n)], [f"#{i * 2 + 1:02x}4080" for i in range(n)])
    out["list of CN"] = ([f"C{i + 1}" for i in range(n)], [f"C{i + 1}" for i in range(n)])
    out["greys"] = ([f"{(i % 10) / 10}" for i in range(n)], [f"{(i % 10) / 10}" for i in range(n)])
    out["more than curves"] = (c + ["pink", "cyan"], c)
    out["fewer than curves"] = (["red", "lime"], ["red", "lime"][:n] + [None] * (n - 2))
    out["repeated"] = (["red"] * n, ["red"] * n)
    return out


OPTIONS = [
    ({}, {}),
    (dict(linewidth=3.5), dict(linewidth=3.5)),
    (dict(lw=0.5, alpha=0.25), dict(linewidth=0.5, alpha=0.25)),
    (dict(zorder=7, gid="x"), dict(zorder=7, gid="x")),
    (dict(markersize=11, markeredgecolor="k"), dict(markersize=11, markeredgecolor="k")),
    (dict(drawstyle="steps-mid", visible=False), dict(drawstyle="steps-mid", visible=False)),
]
LINE = [(dict(linestyle="--", marker="s"), dict(linestyle="--", marker="s")), (dict(ls=":"), dict(linestyle=":"))]
MARK = [(dict(mark="s--"), dict(linestyle="--", marker="s")), (dict(mark="x"), dict(linestyle="None", marker="x")), (dict(mark=":"), dict(linestyle=":", marker="None")),
        (dict(mark="^-.", lw=2), dict(linestyle="-.", marker="^", linewidth=2))]

KINDS = {
    "Normal.pdf": ("Normal", "pdf"), "Normal.cdf": ("Normal", "cdf"), "VonMises.polar": ("VonMises", "polar"), "Poisson.pmf": ("Poisson", "pmf"), "Poisson.cdf": ("Poisson", "cdf"),
    "Poisson.pmf conditional": ("Poisson", "pmf|"), "Poisson.cdf conditional": ("Poisson", "cdf|"), "Binomial.pmf": ("Binomial", "pmf"), "Dirichlet": ("Dirichlet", "pdf"),
}


def objects(cls):
    """name -> (object, curves)"""
    out = {}

    def add(nm, n_, **f):
        o = getattr(D, cls)(**f)
        out[nm] = (o.set_bounds(*((0, 4) if cls in DISCRETE else (0.0, 1.0))), n_)

    if cls == "Dirichlet":
        for n in (2, 3, 5, 9, 10, 11, 12, 26):
            add(f"{n}", n, alpha=np.linspace(2.0, 4.0, n))
        add("integers", 3, alpha=np.array([2, 3, 4]))
        return out
    sp, vp, _ = UNI[cls]
    add("floats", 1, **{k: float(v) for k, v in sp.items()})
    if cls in ("Normal", "Poisson", "Binomial", "VonMises"):
        add("integers", 1, **{k: (v if k == "p" else max(1, round(v))) for k, v in sp.items()})
    for n in (1, 2, 3, 4, 5, 9, 10, 11, 12, 13, 26, 100, 101):
        add(f"{n} vectors", n, **{k: np.array([v[i % 3] for i in range(n)]) for k, v in vp.items()})
    add("2 of one", 2, **{**sp, list(sp)[-1]: np.array(vp[list(sp)[-1]][:2])})
    return out


def units(tier):
    out = []
    for k, (cls, _) in KINDS.items():
        for nm in objects(cls):
            out.append({"kind": "forms", "plot": k, "object": nm, "full": tier != "quick"})
        out.append({"kind": "options", "plot": k})
        for first in range(len(steps_for(cls, None))):
            if tier != "quick" or first % 3 == 0:
                out.append({"kind": "history", "plot": k, "first": [first] if tier != "quick" else [first, first + 1, first + 2], "depth": 2 if tier == "quick" else 3})
    out += [{"kind": "classes", "cls": c} for c in UNI if hasattr(getattr(D, c), "plot_cdf")]
    return out


def steps_for(cls, n):
    """the plots of a history: (object, label form, colour form)"""
    objs = ["floats", "1 vectors", "3 vectors", "10 vectors"] if cls != "Dirichlet" else ["2", "3", "10"]
    forms = [("omitted", "omitted"), ("text", "letter"), ("list", "list"), ("lambda", "rgb tuple"), ("generator", "fewer than curves"), ("None", "more than curves"), ("text", "list of CN"), ("array", "omitted"), ("callable with None", "None")]
    return [(o, *f) for o in objs for f in forms]


def run(u, ctx):
    import matplotlib

    matplotlib.use("Agg")
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        {"forms": run_forms, "options": run_options, "history": run_history, "classes": run_classes}[u["kind"]](u, ctx)


def make_axes(how):
    from matplotlib.figure import Figure

    return Figure().add_subplot(projection="polar") if how == "polar" else Figure().add_subplot()


def plot(o, how, ax, label="omitted", color="omitted", **kw):
    if not (isinstance(label, str) and label == "omitted"):
        kw["label"] = label
    if not (isinstance(color, str) and color == "omitted"):
        kw["color"] = color
    if type(o).__name__ == "Dirichlet":
        kw.update(samples=60, random_state=3)
    if how.endswith("|"):
        kw["conditional"] = True
    before = len(ax.lines)
    getattr(o, f"plot_{'pdf' if how == 'polar' else how.rstrip('|')}")(ax=ax, **kw)
    return list(ax.lines)[before:]


def visible(label):
    return label is not None and not label.startswith("_")


def judge(ctx, key, lines, n, want_labels, want_colors, props=(), **info):
    from matplotlib.colors import to_rgba

    ok = True
    if len(lines) != n:
        ctx.fail(f"{key}:curves", f"{len(lines)} curves instead of {n}", **info)
        return False
    got = [l.get_label() for l in lines]
    for i, (g, w) in enumerate(zip(got, want_labels)):
        if (visible(g) if w is None else str(g) != w):
            ctx.fail(f"{key}:label", f"curve {i} is labelled {g!r} instead of {w!r}", labels=got, expected=want_labels, **info)
            ok = False
            break
    if want_colors is not None:
        for i, (l, w) in enumerate(zip(lines, want_colors)):
            alpha = dict(props).get("alpha")
            if w is not None and to_rgba(l.get_color())[: 3 if alpha else 4] != to_rgba(w)[: 3 if alpha else 4]:
                ctx.fail(f"{key}:color", f"curve {i} has color {l.get_color()!r} instead of {w!r}", **info)
                ok = False
                break
    for k, v in props:
        for i, l in enumerate(lines):
            if getattr(l, f"get_{k}")() != v:
                ctx.fail(f"{key}:option:{k}", f"curve {i} has {k} {getattr(l, f'get_{k}')()!r} instead of {v!r}", **info)
                return False
    return ok


def entries(ctx, key, ax, want, **info):
    """the legend of the axes lists the labelled curves in order"""
    got = ax.get_legend_handles_labels()[1]
    if [str(x) for x in got] != [w for w in want if w is not None]:
        ctx.fail(f"{key}:legend", f"legend entries {got} instead of {[w for w in want if w is not None]}", **info)
        return False
    return True


def frozen(x):
    return repr(list(x)) if isinstance(x, (list, tuple, dict, np.ndarray)) else None


def run_forms(u, ctx):
    cls, how = KINDS[u["plot"]]
    o, n = objects(cls)[u["object"]]
    ax = make_axes(how)
    # every pair of forms; for many curves each form next to a few of the other
    few_l, few_c = ("omitted", "text", "list", "lambda"), ("omitted", "letter", "list", "rgb tuple")
    for lf, cf in itertools.product(labels(n), colors(n)):
        if not u["full"] and (n > 3 or how not in ("pdf", "pmf")) and lf not in few_l and cf not in few_c:
            continue
        (label, wl), (color, wc) = labels(n)[lf], colors(n)[cf]
        for l in list(ax.lines):
            l.remove()
        info = dict(plot=u["plot"], parameters=u["object"], label=lf, color=cf, curves=n)
        key = f"{u['plot']}:{lf}:{cf}"
        ctx.state((u["plot"], u["object"], lf, cf))
        ctx.eval(key=(u["plot"], u["object"], lf, cf))
        ctx.step()
        before = frozen(label), frozen(color)
        with ctx.guard(key, **info):
            lines = plot(o, how, ax, label, color)
            ok = judge(ctx, key, lines, n, wl, wc, **info) and entries(ctx, key, ax, wl, **info)
            if (frozen(label), frozen(color)) != before:
                ctx.fail(f"{key}:argument", "the label or color argument was changed", **info)
                ok = False
            if isinstance(label, Callable_) and (sorted(set(label.calls)) != list(range(n)) or any(not isinstance(i, (int, np.integer)) for i in label.calls)):
                ctx.fail(f"{key}:calls", f"label was called with {label.calls[:20]} instead of 0 to {n - 1}", **info)
                ok = False
            ctx.trace(ok)
    ctx.sample(plot=u["plot"], object=u["object"], labels=list(labels(n)), colors=list(colors(n)))


def run_options(u, ctx):
    cls, how = KINDS[u["plot"]]
    discrete = cls in DISCRETE
    ax = make_axes(how)
    for nm, (o, n) in objects(cls).items():
        if n > 12 or ctx.tier == "quick" and nm not in ("floats", "integers", "1 vectors", "3 vectors", "10 vectors", "3"):
            continue
        for (kw, props), lf, cf in itertools.product(OPTIONS + (MARK if discrete else LINE), ("omitted", "text", "list"), ("omitted", "letter", "list", "rgb tuple")):
            for l in list(ax.lines):
                l.remove()
            (label, wl), (color, wc) = labels(n)[lf], colors(n)[cf]
            info = dict(plot=u["plot"], parameters=nm, label=lf, color=cf, options=kw)
            key = f"{u['plot']}:options:{list(kw)}"
            ctx.state((u["plot"], nm, lf, cf, str(kw)))
            ctx.eval(key=(u["plot"], nm, str(kw)))
            ctx.step()
            if discrete and "mark" not in kw:
                props = {"marker": "o", "linestyle": "-", **props}
            with ctx.guard(key, **info):
                lines = plot(o, how, ax, label, color, **kw)
                ctx.trace(judge(ctx, key, lines, n, wl, wc, tuple(props.items()), **info))
    ctx.sample(plot=u["plot"], options=[str(k) for k, _ in OPTIONS])


def run_history(u, ctx):
    cls, how = KINDS[u["plot"]]
    objs = objects(cls)
    steps = steps_for(cls, None)
    if u["depth"] > 2:
        rest = [s for s in steps if s[0] in ("floats", "3 vectors", "3")]
    else:
        rest = steps
    for first in u["first"]:
        if first >= len(steps):
            continue
        for tail in itertools.product(rest, repeat=u["depth"] - 1):
            hist = (steps[first], *tail)
            ax = make_axes("pdf")
            done, legend = [], []
            ok = True
            for k, (nm, lf, cf) in enumerate(hist):
                o, n = objs[nm]
                (label, wl), (color, wc) = labels(n)[lf], colors(n)[cf]
                info = dict(plot=u["plot"], history=hist[: k + 1])
                key = f"{u['plot']}:history:{lf}:{cf}"
                ctx.step()
                with ctx.guard(key, **info):
                    lines = plot(o, how if how != "polar" else "pdf", ax, label, color)
                    done.append((key, lines, n, wl, wc))
                    legend += wl
                    for d in done:
                        ok = judge(ctx, *d, **info) and ok
                    ok = entries(ctx, key, ax, legend, **info) and ok
            ctx.state((u["plot"], hist))
            ctx.eval(key=(u["plot"], hist))
            ctx.trace(ok)
    ctx.sample(plot=u["plot"], last=hist)


def run_classes(u, ctx):
    """every class: one, two and eleven curves"""
    cls = u["cls"]
    kinds_ = ["pmf", "cdf", "pmf|", "cdf|"] if cls in DISCRETE else ["pdf", "cdf"]
    for nm, (o, n) in objects(cls).items():
        if nm not in ("floats", "1 vectors", "2 vectors", "11 vectors"):
            continue
        ax = make_axes("pdf")
        for how, lf, cf in itertools.product(kinds_, ("None", "text", "list", "generator", "lambda"), ("omitted", "C1", "rgb tuple", "list", "more than curves")):
            for l in list(ax.lines):
                l.remove()
            (label, wl), (color, wc) = labels(n)[lf], colors(n)[cf]
            info = dict(cls=cls, plot=how, parameters=nm, label=lf, color=cf)
            key = f"{cls}:{how}:{lf}:{cf}"
            ctx.state((cls, how, nm, lf, cf))
            ctx.eval(key=(cls, how, nm, lf, cf))
            ctx.step()
            with ctx.guard(key, **info):
                lines = plot(o, how, ax, label, color, lw=2.5)
                ctx.trace(judge(ctx, key, lines, n, wl, wc, (("linewidth", 2.5),), **info) and entries(ctx, key, ax, wl, **info))
    ctx.sample(cls=cls)
