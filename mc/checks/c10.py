"""C10 vectorised calls: every assignment of shapes and dtypes to the arguments, position by position against scalar calls."""

import itertools
import math

import numpy as np

from conjugate import models as M
from mc import lattice as L
from mc.bcast import CALLS
from mc.spec import fields_of

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of shape, dtype and memory-layout assignments to all arguments, each position replayed as a scalar call of the real function"
RULE = (
    "case = (function, shape of every prior field, data argument and known parameter; dtype of each; memory layout), enumerated "
    "as full products; at every position of the broadcast shape every field of the result is compared with the scalar call; "
    "non-trivial = at least two positions differ"
)
ASSUMPTIONS = ["scalar calls are judged by C01, C02, C04 and C06", "rounding up to 1e-9 relative (1e-4 with 32-bit floats)"]
BOUNDS = {
    "quick": "all assignments of {scalar, (1,), (3,), (2,1), (2,3)} to up to 6 arguments ({scalar, (3,), (2,1), (2,3)} for 7), all pairs of 10 shapes, sizes 1-70, 128, 257, 1000, large and small values at every two arguments, 3 dimensions, 7 dtypes per argument, 5 memory layouts",
    "thorough": "all assignments of 7 shapes of up to 3 dimensions to up to 6 arguments (5 shapes for 7 arguments); the rest as quick",
}

PAIR_SHAPES = [(), "0d", (1,), (3,), (2, 1), (2, 3), (1, 1), (1, 3), (4, 1, 3), (2, 1, 1)]


def units(tier):
    out = []
    for nm, c in CALLS.items():
        k = len(c.sites)
        if tier == "quick":
            shapes = [(), (1,), (3,), (2, 1), (2, 3)] if k <= 6 else [(), (3,), (2, 1), (2, 3)]
        else:
            shapes = [(), "0d", (1,), (3,), (2, 1), (2, 3), (4, 1, 3)] if k <= 6 else [(), (1,), (3,), (2, 1), (2, 3)]
        parts = 1 if len(shapes) ** k < 3000 else 8
        for part in range(parts):
            out.append({"kind": "product", "call": nm, "shapes": shapes, "part": part, "parts": parts})
        for kind in ("pairs", "sizes", "dtypes", "layouts", "magnitudes"):
            out.append({"kind": kind, "call": nm})
    return out


def run(u, ctx):
    c = CALLS[u["call"]]
    cache = {}
    {"product": run_product, "pairs": run_pairs, "sizes": run_sizes, "dtypes": run_dtypes, "layouts": run_layouts, "magnitudes": run_magnitudes}[u["kind"]](u, ctx, c, cache)


def scalar(c, cache, names, vals):
    key = tuple(vals)
    if key not in cache:
        r = c.invoke(M, dict(zip(names, vals)))
        cache[key] = (type(r), fields_of(r))
    return cache[key]


def make(values, shape, k, off=0):
    """array of that shape; the values cycle through the table, differently for each site"""
    if shape == ():
        return values[k % len(values)]
    if shape == "0d":
        return np.array(values[(k + 1) % len(values)])
    n = math.prod(shape)
    return np.array([values[(i + off) % len(values)] for i in range(n)], float if any(isinstance(v, float) for v in values) else np.int64).reshape(shape)


def close(a, b, tol):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)


def judge(c, cache, ctx, values, info, tol=1e-9, scale=1.0, positions=None):
    names = list(c.sites)
    shape = np.broadcast_shapes(*[np.shape(values[n]) for n in names])
    with ctx.guard(f"{c.name}:vectorised", f"{c.fn} with array arguments", **info):
        res = c.invoke(M, values)
        got = fields_of(res)
        ar = {n: np.broadcast_to(np.asarray(values[n]), shape) for n in names}
        try:
            gb = {k: np.broadcast_to(np.asarray(v), shape) for k, v in got.items() if v is not None}
        except ValueError:
            ctx.fail(f"{c.name}:shape", f"result shapes { {k: np.shape(v) for k, v in got.items()} } do not fit {shape}", **info)
            return
        for idx in positions(shape) if positions else np.ndindex(shape):
            cls, want = scalar(c, cache, names, [ar[n][idx].item() for n in names])
            if cls is not type(res):
                ctx.fail(f"{c.name}:type", f"{type(res).__name__} instead of {cls.__name__}", **info)
                return
            for k, w in want.items():
                g = None if got[k] is None else gb[k][idx]
                if isinstance(w, (bool, np.bool_)) or w is None or g is None:
                    good = g is w or (g is not None and w is not None and bool(g) == bool(w))
                else:
                    good = close(g, w, tol) or (c.fn.startswith("von_mises") and k == "b" and close(math.cos(g), math.cos(w), 1e-6) and close(math.sin(g), math.sin(w), 1e-6) and 0 <= g <= 6.2831854)
                if not good:
                    ctx.fail(f"{c.name}:position", f"{k} is {g} instead of {w} at position {idx}", scalars={n: ar[n][idx].item() for n in names}, **info)
                    return
        ctx.eval(max(1, math.prod(shape)), key=repr(info) if math.prod(shape) > 1 else None)


def empties(c, values):
    """some positions with no observations, where all data arguments have one shape"""
    if not c.empty:
        return None
    shapes = {np.shape(values[k]) for k in c.empty}
    if len(shapes) != 1 or not shapes.pop():
        return None
    out = dict(values)
    for k, v in c.empty.items():
        a = np.array(values[k])
        a.reshape(-1)[::2] = v
        out[k] = a
    return out


def run_product(u, ctx, c, cache):
    names = list(c.sites)
    shapes = [s if s == "0d" else tuple(s) for s in u["shapes"]]
    for i, assign in enumerate(itertools.product(shapes, repeat=len(names))):
        if i % u["parts"] != u["part"]:
            continue
        values = {n: make(c.sites[n], s, j + i, j + i) for j, (n, s) in enumerate(zip(names, assign))}
        info = dict(call=c.name, shapes=dict(zip(names, assign)), values=values)
        ctx.state(("product", assign))
        judge(c, cache, ctx, values, info)
        e = empties(c, values)
        if e:
            info = dict(call=c.name, shapes=dict(zip(names, assign)), values=e, empty=True)
            judge(c, cache, ctx, e, info)
    ctx.sample(call=c.name, arguments=names, shapes=shapes)


def run_pairs(u, ctx, c, cache):
    names = list(c.sites)
    pairs = list(itertools.combinations(range(len(names)), 2)) or [(0, 0)]
    for (a, b), (s, t) in itertools.product(pairs, itertools.product(PAIR_SHAPES, repeat=2)):
        values = {n: make(c.sites[n], (), j) for j, n in enumerate(names)}
        values[names[a]] = make(c.sites[names[a]], s, a, 1)
        values[names[b]] = make(c.sites[names[b]], t, b, 2)
        try:
            np.broadcast_shapes(np.shape(values[names[a]]), np.shape(values[names[b]]))
        except ValueError:
            continue
        judge(c, cache, ctx, values, dict(call=c.name, sites=(names[a], names[b]), shapes=(s, t), values=values))
    ctx.sample(call=c.name, pairs=len(pairs), shapes=PAIR_SHAPES)


def run_magnitudes(u, ctx, c, cache):
    """arguments of very different sizes: every choice of ordinary, large or small values for every two sites and for all"""
    names = list(c.sites)

    def table(n, how):
        v = c.sites[n]
        if how == "ordinary":
            return np.array(v)
        if all(isinstance(x, int) for x in v):
            return np.array(v) * (16777217 if how == "large" else 1)  # odd multiples of it have no exact 32-bit float
        return np.array(v) * (1e7 / 3 if how == "large" else 1e-7 / 3)

    HOW = ("ordinary", "large", "small")
    choices = set(itertools.product(HOW, repeat=1) if len(names) == 1 else [])
    for a, b in itertools.combinations(range(len(names)), 2):
        for x, y in itertools.product(HOW, repeat=2):
            choices.add(tuple(x if i == a else y if i == b else "ordinary" for i in range(len(names))))
    choices |= {(h,) * len(names) for h in HOW}
    squares = c.fn.startswith(("normal", "log_normal"))
    for how in sorted(choices):
        values = {n: np.tile(table(n, h), 4) for n, h in zip(names, how)}
        info = dict(call=c.name, sizes=dict(zip(names, how)), values=values)
        ctx.state((c.name, how))
        with ctx.guard(f"{c.name}:vectorised", f"{c.fn} with array arguments", **info), np.errstate(all="ignore"):
            ctx.step()
            got = fields_of(c.invoke(M, values))
            for i in (0, 1, 2, 3, 4, 5, 6, 17, 23):
                at = {n: v[i].item() for n, v in values.items()}
                try:
                    _, want = scalar(c, cache, names, at.values())
                except (OverflowError, ZeroDivisionError):
                    continue
                big = max(abs(x) for x in at.values())
                for k, w in want.items():
                    if w is None or isinstance(w, (bool, np.bool_, complex)):
                        continue
                    g, w = float(np.broadcast_to(np.asarray(got[k]), (24,))[i]), float(w)
                    if w != w or g == w or abs(g - w) <= 1e-10 * abs(w) + 2e-15 * big * (big if squares else 1):
                        continue
                    if c.fn.startswith("von_mises") and k == "b" and close(math.cos(g), math.cos(w), 1e-6) and close(math.sin(g), math.sin(w), 1e-6):
                        continue
                    ctx.fail(f"{c.name}:position", f"{k} is {g} instead of {w} at position {i}", scalars=at, **info)
                    return
            ctx.eval(9, key=(c.name, how))
    ctx.sample(call=c.name, sizes=list(map(list, sorted(choices)[:3])))


def run_sizes(u, ctx, c, cache):
    names = list(c.sites)
    sizes = [(n,) for n in range(1, 71)] + [(128,), (257,), (1000,), (40, 30), (3, 1, 4), (2, 3, 2, 2), (1, 65), (65, 1)]
    for s in sizes:
        values = {n: make(c.sites[n], s, 0, j) for j, n in enumerate(names)}
        judge(c, cache, ctx, values, dict(call=c.name, shape=s))
        e = empties(c, values)
        if e:
            judge(c, cache, ctx, e, dict(call=c.name, shape=s, empty=True))
        if math.prod(s) in (1, 2, 3, 64, 65, 1000) or len(s) > 1:
            for one in names:  # one array among scalars
                v = {n: make(c.sites[n], (), 1) for n in names}
                v[one] = values[one]
                judge(c, cache, ctx, v, dict(call=c.name, shape=s, array=one))
                v = dict(values)  # one scalar among arrays
                v[one] = make(c.sites[one], (), 1)
                judge(c, cache, ctx, v, dict(call=c.name, shape=s, scalar=one))
    ctx.sample(call=c.name, sizes=len(sizes))


DTYPES = [np.float64, np.float32, np.int64, np.int32, np.int16, np.uint32, ">f8", "longdouble"]


def run_dtypes(u, ctx, c, cache):
    names = list(c.sites)
    ints = {n: [v if float(v).is_integer() else max(1, round(v)) for v in vs] for n, vs in c.sites.items()}
    if c.fn == "beta":
        ints = {n: vs if n.endswith("prod") or n in ("prior.p", "prior.q") else ints[n] for n, vs in c.sites.items()}
    table = {}
    for n in names:
        table[n] = [min(v, 100) if n not in ("x2_total", "ln_x2_total") else v for v in ints[n]]
    # negative values have no unsigned form
    for base, other in itertools.product(DTYPES, repeat=2):
        for one in [None, *names]:
            values, skip, low = {}, False, False
            for j, n in enumerate(names):
                dt = np.dtype(other if n == one else base)
                vals = table[n]
                if dt.kind in "iu" and any(v != int(v) for v in vals) or dt.kind == "u" and any(v < 0 for v in vals):
                    dt = np.dtype(float)
                if n.startswith("x2") or n.startswith("ln_x2"):
                    dt = dt if dt.itemsize >= 4 else np.dtype(np.int32)
                if dt.kind == "u" and (c.fn in ("geometric_beta",) or n in ("n", "x")):
                    dt = np.dtype(np.int64) if c.fn != "poisson_gamma" else dt
                low |= dt == np.float32 or dt.itemsize < 4
                values[n] = make(vals, (4,), 0, j).astype(dt)
            if one is None and base is not other:
                continue
            # sums of small integer types are the caller's choice: keep them within range
            judge(c, cache, ctx, values, dict(call=c.name, dtypes={n: str(v.dtype) for n, v in values.items()}), tol=2e-4 if low else 1e-9)
    # booleans where the data are zero or one
    if c.fn == "bernoulli_beta":
        values = {n: make(c.sites[n], (4,), 0, j) for j, n in enumerate(names)}
        values["x"] = values["x"].astype(bool)
        judge(c, {}, ctx, {**values, "x": values["x"].astype(int)}, dict(call=c.name, dtype="int"))
    ctx.sample(call=c.name, dtypes=[str(np.dtype(d)) for d in DTYPES])


def run_layouts(u, ctx, c, cache):
    names = list(c.sites)
    def readonly(a):
        a = a.copy()
        a.setflags(write=False)
        return a

    lays = {
        "readonly": readonly, "reversed": lambda a: a[::-1].copy()[::-1], "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2],
        "fortran": np.asfortranarray, "view": lambda a: np.concatenate([a, a])[: len(a)], "broadcast": lambda a: np.broadcast_to(a[:1], a.shape),
        "subclass": lambda a: a.view(type("Sub", (np.ndarray,), {})), "shared": lambda a: a,
    }
    for (ln, lay), s in itertools.product(lays.items(), [(4,), (3, 2)]):
        for one in [None, *names]:
            values = {}
            for j, n in enumerate(names):
                a = make(c.sites[n], s, 0, j)
                values[n] = lay(a) if one in (None, n) else a
            judge(c, cache, ctx, values, dict(call=c.name, layout=ln, only=one, shape=s))
    # the same array object as several arguments
    for a, b in itertools.combinations(names, 2):
        if set(c.sites[a]) == set(c.sites[b]):
            values = {n: make(c.sites[n], (5,), 0, j) for j, n in enumerate(names)}
            values[b] = values[a]
            judge(c, cache, ctx, values, dict(call=c.name, same=(a, b)))
    ctx.sample(call=c.name, layouts=list(lays))
