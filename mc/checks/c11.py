"""C11 indexing: every sequence of keys up to a depth on every vectorised distribution, against indexing plain positions."""

import itertools
from itertools import islice

import numpy as np

from conjugate import distributions as D
from conjugate import models as M
from mc.bcast import CALLS
from mc.checks.c10 import make
from mc.distspec import DIST
from mc.spec import fields_of

ID = "C11"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of all sequences of index operations up to a depth on the real objects, against a reference that indexes positions"
RULE = (
    "state = (class, which parameters are vectors and in which form, sequence of keys applied); transition = one real "
    "indexing; in every state the parameters, options, class, density and mean are those of the original at the positions the "
    "keys select, iteration yields exactly these elements and ends, and keys out of range raise; further: indexing commutes with "
    "every posterior and predictive update"
)
ASSUMPTIONS = [
    "keys index the first axis; distributions without any vector parameter and selections of nothing are not judged",
    "densities of the original are judged by C08",
]
BOUNDS = {
    "quick": "5 positions, 40 keys, all pairs of keys and sequences of up to 3 keys that go on from five of them, every subset of vector parameters, 5 forms of vectors",
    "thorough": "sequences of up to 4 keys",
}

L = 5


def nkeys(n):
    """keys for n positions, by name so that units stay printable"""
    k = {
        "0": 0, "1": 1, "last": n - 1, "-1": -1, "-n": -n, "np0": np.int64(0), "np-1": np.int32(-1), "u8": np.uint8(n - 1), "0d": np.array(n // 2),
        ":": slice(None), "1:": slice(1, None), ":2": slice(None, 2), "::2": slice(None, None, 2), "::-1": slice(None, None, -1), "-3:-1": slice(-3, -1),
        "1:100": slice(1, 100), "3:0:-2": slice(n - 1, 0, -2),
        "[0]": [0], "[2,1]": [min(2, n - 1), min(1, n - 1)], "[1,1,0]": [min(1, n - 1)] * 2 + [0], "[-1,0]": [-1, 0],
        "arr": np.array([n - 1, 0, n - 1]), "arr1": np.array([0]), "arr32": np.array([0, n - 1], np.int32), "arr2d": np.array([[0, n - 1], [n - 1, 0]]),
        "neg": np.array([-1, -n]), "lnp": [np.int64(0), np.int64(n - 1)], "long": [i % n for i in range(3 * n + 1)],
        "mask": np.arange(n) % 2 == 0, "maskall": np.ones(n, bool), "masklist": [i != 1 for i in range(n)], "maskone": np.arange(n) == n - 1,
        "...": Ellipsis, "(1,)": (min(1, n - 1),),
    }
    return k


def bad_keys(n):
    return {
        "n": n, "n+1": n + 1, "-n-1": -n - 1, "100": 100, "npn": np.int64(n), "[n]": [n], "[0,n]": [0, n], "arrn": np.array([0, n]), "[-n-1]": [-n - 1],
        "longmask": np.ones(n + 1, bool), "longmasklist": [True] * (n + 1), "0dn": np.array(n),
    }


FORMS = ("array", "list", "tuple", "int", "2d", "shared 0d", "shared NumPy number")


def rows(cls, n):
    g = [f for f in DIST[cls].fields if not any(k in DIST[cls].options for k in f)] or DIST[cls].fields
    if cls in ("Binomial", "BetaBinomial"):
        g = [f for f in g if f["n"] > 0]
    if cls == "Hypergeometric":
        g = [f for f in g if f["N"] == 200]
    if cls == "BetaNegativeBinomial":
        g = [f for f in g if f["alpha"] > 1]
    step = max(1, len(g) // (n + 2))
    while len(g) > n and step > 1 and step % 7 == 0:
        step -= 1
    return [g[(i * step + i) % len(g)] for i in range(n)]


def units(tier):
    depth = 3 if tier == "quick" else 4
    out = []
    for cls, s in DIST.items():
        names = [k for k in rows(cls, 2)[0] if k not in s.options]
        for r in range(1, len(names) + 1):
            for sub in itertools.combinations(names, r):
                out.append({"kind": "index", "cls": cls, "vector": sub, "depth": depth})
        out.append({"kind": "long", "cls": cls})
    for cls in ("Multinomial", "DirichletMultinomial"):
        out.append({"kind": "simplex", "cls": cls, "depth": depth})
    for nm in CALLS:
        out.append({"kind": "model", "call": nm})
    return out


def run(u, ctx):
    {"index": run_index, "long": run_long, "simplex": run_simplex, "model": run_model}[u["kind"]](u, ctx)


def select(pos, k):
    """the positions a key selects, None when it is out of range"""
    try:
        return pos[k]
    except IndexError:
        return None


def must_raise(ctx, key, o, pos, kn, k, info):
    if select(pos, k) is not None:
        return
    try:
        res = o[k]
    except Exception:
        return
    ctx.fail(f"{key}:out-of-range", f"key {kn} on {len(pos)} elements returned {res!r}"[:300], **info)


def as_form(vals, form):
    if form == "list":
        return list(vals)
    if form == "tuple":
        return tuple(vals)
    if form == "int" and all(float(v).is_integer() for v in vals):
        return np.array(vals, np.int64)
    return np.array(vals, float)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-12 * np.maximum(1, np.abs(b)))))


def check(ctx, key, obj, cls, want, options, evalx, base, pos, info, dist=True):
    """want: field -> array of values at the selected positions, or a scalar that is kept"""
    if type(obj).__name__ != cls:
        ctx.fail(f"{key}:class", f"{type(obj).__name__} instead of {cls}", **info)
        return False
    got = fields_of(obj)
    for n, w in want.items():
        if not close(got[n], w):
            ctx.fail(f"{key}:fields", f"{n} is {got[n]!r} instead of {w!r}", **info)
            return False
    for n, w in options.items():
        if got[n] is not w:
            ctx.fail(f"{key}:options", f"{n} is {got[n]!r} instead of {w!r}", **info)
            return False
    if dist and evalx is not None:
        for x, row in evalx.items():
            f = obj.dist
            g = f.pmf(x) if DIST[cls].discrete else f.pdf(x)
            if not close(g, row[pos]):
                ctx.fail(f"{key}:density", f"log density at {x} is {g} instead of {row[pos]}", **info)
                return False
        m = obj.dist.mean() if base is not None else None
        if base is not None and not close(m, base[pos]):
            ctx.fail(f"{key}:mean", f"mean is {m} instead of {base[pos]}", **info)
            return False
    return True


def evaluate(obj, cls, shape):
    xs = DIST[cls].points({k: (np.asarray(v).reshape(-1)[0].item() if np.ndim(v) else v) for k, v in fields_of(obj).items()})[2::4]
    d = obj.dist
    ev = {x: np.broadcast_to(d.pmf(x) if DIST[cls].discrete else d.pdf(x), shape).copy() for x in xs[:3]}
    return ev, np.broadcast_to(d.mean(), shape).copy() if hasattr(d, "mean") and cls != "VonMises" else None


def iterate(ctx, key, obj, cls, vec, fixed, n, info):
    """iterating yields each element once and ends"""
    got = list(islice(iter(obj), n + 5))
    if len(got) != n:
        ctx.fail(f"{key}:iteration", f"iterating over {n} elements gives {len(got)}{'+' if len(got) == n + 5 else ''}", **info)
        return
    for i, e in enumerate(got):
        want = {k: np.asarray(v)[i] for k, v in vec.items()} | fixed
        if not all(close(fields_of(e)[k], w) for k, w in want.items()):
            ctx.fail(f"{key}:iteration", f"element {i} is {e!r}", **info)
            return


def run_index(u, ctx):
    cls = u["cls"]
    s = DIST[cls]
    r = rows(cls, L)
    for form, one in itertools.product(FORMS, [None, *u["vector"]] if len(u["vector"]) > 1 else [None]):
        options = [{}] if not s.options else [{}, {s.options[0]: True}, {s.options[0]: False}]
        if form.startswith("shared") and len(u["vector"]) == len([k for k in r[0] if k not in s.options]):
            continue
        share = {"shared 0d": np.array, "shared NumPy number": np.float64}.get(form, lambda v: v)
        for opt in options:
            f, vec, fixed = {}, {}, {}
            for k in r[0]:
                if k in s.options:
                    continue
                if k in u["vector"]:
                    vals = [q[k] for q in r]
                    if k == one:  # a vector of one element, shared by all positions
                        vals = vals[:1]
                    vec[k] = np.array(vals if len(vals) == L else vals * L, float)
                    f[k] = as_form(vals, form)
                    if form == "2d":
                        f[k] = f[k][:, None] * (np.ones((1, 3)) if len(vals) == L else np.ones((1, 3)))
                        vec[k] = vec[k][:, None] * np.ones((1, 3))
                else:
                    fixed[k], f[k] = r[0][k], share(r[0][k])
            full = dict(options=opt) and {**({s.options[0]: True} if s.options else {}), **opt}
            try:
                obj = getattr(D, cls)(**f, **opt)
            except Exception:
                # a plain list is not accepted by every constructor (bounds of the plot, for example)
                if form in ("list", "tuple"):
                    continue
                raise
            shape = next(iter(vec.values())).shape
            plain = getattr(D, cls)(**{**fixed, **vec}, **opt)
            ev, mean = evaluate(plain, cls, shape)
            info0 = dict(cls=cls, fields=f, options=opt)
            before = {k: np.array(v) for k, v in f.items()}
            key = cls
            if form != "2d":
                with ctx.guard(f"{key}:iteration", **info0):
                    iterate(ctx, key, obj, cls, vec, fixed, L, info0)

            def dfs(o, pos, path):
                n = len(pos)
                # indexing the first axis of the positions selected so far
                for kn, k in nkeys(n).items():
                    p = path + (kn,)
                    sel = select(pos, k)
                    if sel is None:
                        must_raise(ctx, key, o, pos, kn, k, dict(info0, keys=p))
                        continue
                    if np.size(sel) == 0:
                        continue
                    ctx.state((cls, u["vector"], form, one, repr(opt), p))
                    ctx.step()
                    info = dict(info0, keys=p, last=k)
                    with ctx.guard(f"{key}:index", **info):
                        res = o[k]
                        want = {m: v[sel] for m, v in vec.items()} | fixed
                        if check(ctx, key, res, cls, want, full, ev if len(p) == 1 else None, mean, sel, info):
                            ctx.trace()
                            if np.ndim(sel) == 1 and len(sel) > 0 and len(p) < (u["depth"] if one is None and form in ("array", "list") else 1 if form.startswith("shared") else u["depth"] - 1) and (len(p) < 2 or kn in ("::-1", "1:", "[2,1]", "mask", "long")):
                                dfs(res, sel, p)
                for kn, k in bad_keys(n).items():
                    ctx.step()
                    must_raise(ctx, key, o, pos, kn, k, dict(info0, keys=(*path, kn)))

            dfs(obj, np.arange(L), ())
            if form == "2d":
                for k in [(0, 1), (slice(None), 1), (-1, slice(None, None, 2)), (Ellipsis, 0), ([0, 2], [1, 2]), (np.array([[0], [1]]), np.array([0, 2]))]:
                    if one is not None:
                        continue
                    ctx.step()
                    info = dict(info0, index=k)
                    with ctx.guard(f"{key}:index2d", **info):
                        want = {m: v[k] for m, v in vec.items()} | fixed
                        check(ctx, key, obj[k], cls, want, full, None, None, None, info)
                for k in [(0, 3), (5, 0), (slice(None), -4), (0, 0, 0)]:
                    try:
                        res = obj[k]
                    except Exception:
                        continue
                    ctx.fail(f"{key}:out-of-range", f"key {k} returned {res!r}"[:300], **info0)
            if not all(np.array_equal(before[k], f[k]) for k in f) or not all(np.array_equal(before[k], fields_of(obj)[k]) for k in f):
                ctx.fail(f"{key}:changed", "indexing changed the original", **info0)
    ctx.sample(cls=cls, vector=u["vector"], forms=FORMS)


def run_long(u, ctx):
    """all lengths up to 40 and some longer: every single element, every split in two, iteration"""
    cls = u["cls"]
    s = DIST[cls]
    for n in [*range(1, 41), 64, 65, 100, 257, 1000]:
        r = rows(cls, n)
        vec = {k: np.array([q[k] for q in r], float) for k in r[0] if k not in s.options}
        obj = getattr(D, cls)(**{k: v.copy() for k, v in vec.items()})
        info = dict(cls=cls, n=n)
        with ctx.guard(f"{cls}:long", **info):
            iterate(ctx, cls, obj, cls, vec, {}, n, info)
            idx = range(-n, n) if n <= 40 else (0, 1, 63, n - 1, -1, -n, n // 2)
            for i in idx:
                ctx.state((cls, n, i))
                ctx.step()
                g = fields_of(obj[i])
                if not all(close(g[k], v[i]) and np.ndim(g[k]) == 0 for k, v in vec.items()):
                    ctx.fail(f"{cls}:element", f"element {i} of {n} is {obj[i]!r}", **info)
            for i in (range(1, n) if n <= 40 else (1, n // 2)):
                ctx.step(2)
                a, b = fields_of(obj[:i]), fields_of(obj[i:])
                if not all(close(np.concatenate([a[k], b[k]]), v) for k, v in vec.items()):
                    ctx.fail(f"{cls}:split", f"the parts of {n} elements before and after {i} are not the whole", **info)
            for bad in (n, n + 1, -n - 1):
                try:
                    res = obj[bad]
                except Exception:
                    continue
                ctx.fail(f"{cls}:out-of-range", f"element {bad} of {n} is {res!r}"[:300], **info)
            ctx.trace()
    ctx.sample(cls=cls, lengths="1..40, 64, 65, 100, 257, 1000")


def run_simplex(u, ctx):
    """distributions whose vector parameter is itself a vector per element"""
    cls = u["cls"]
    p = np.array([[0.2, 0.3, 0.5], [0.1, 0.1, 0.8], [0.6, 0.25, 0.15], [0.5, 0.25, 0.25], [0.125, 0.125, 0.75]])
    if cls == "DirichletMultinomial":
        p = p * 10
    name = "p" if cls == "Multinomial" else "alpha"
    for n in (5, np.array([1, 5, 2, 3, 7])):
        obj = getattr(D, cls)(**{name: p.copy(), "n": n})

        def dfs(o, pos, path):
            for kn, k in nkeys(len(pos)).items():
                q = path + (kn,)
                sel = select(pos, k)
                if sel is None or np.size(sel) == 0:
                    continue
                ctx.state((cls, np.ndim(n), q))
                ctx.step()
                info = dict(cls=cls, n=n, keys=q)
                with ctx.guard(f"{cls}:index", **info):
                    res = o[k]
                    want = {name: p[sel], "n": n[sel] if np.ndim(n) else n}
                    if not check(ctx, cls, res, cls, want, {}, None, None, None, info):
                        continue
                    ctx.trace()
                    if np.ndim(sel) == 0:
                        nn = int(want["n"])
                        ref = getattr(D, cls)(**{name: p[sel], "n": nn}).dist.logpmf([nn, 0, 0])
                        if not close(res.dist.logpmf([nn, 0, 0]), ref):
                            ctx.fail(f"{cls}:density", "density differs", **info)
                    elif np.ndim(sel) == 1 and len(sel) and len(q) < u["depth"]:
                        dfs(res, sel, q)
            for kn, k in bad_keys(len(pos)).items():
                must_raise(ctx, cls, o, pos, kn, k, dict(n=n, keys=path))

        dfs(obj, np.arange(L), ())
    ctx.sample(cls=cls)


def run_model(u, ctx):
    """update (or predict) and index, or index and update: the same"""
    c = CALLS[u["call"]]
    if not hasattr(getattr(D, c.cls), "__getitem__"):
        ctx.sample(call=c.name, note="prior cannot be indexed")
        return
    names = list(c.sites)
    pri = [n for n in names if n.startswith(c.target + ".")]
    dat = [n for n in names if n not in pri]
    keys = nkeys(L)
    for vp in [v for r in range(1, len(pri) + 1) for v in itertools.combinations(pri, r)]:
        for vd in [v for r in range(0, len(dat) + 1) for v in itertools.combinations(dat, r)]:
            values = {n: make(c.sites[n], (L,) if n in vp or n in vd else (), j, j) for j, n in enumerate(names)}
            obj = getattr(D, c.cls)(**{k: values[f"{c.target}.{k}"] for k in c.fields})
            kw = {n: values[n] for n in dat}
            info = dict(call=c.name, values=values)
            with ctx.guard(f"{c.name}:model", **info):
                whole = getattr(M, c.fn)(**{c.target: obj}, **kw, **c.const)
                if not hasattr(whole, "__getitem__"):
                    continue
                for kn, k in keys.items():
                    ctx.state((c.name, vp, vd, kn))
                    ctx.step(2)
                    part = getattr(M, c.fn)(**{c.target: obj[k]}, **{n: (v[k] if np.ndim(v) else v) for n, v in kw.items()}, **c.const)
                    a, b = fields_of(part), fields_of(whole[k])
                    for n in a:
                        if isinstance(a[n], (bool, np.bool_)) or a[n] is None:
                            same = a[n] is b[n] or bool(a[n]) == bool(b[n])
                        else:
                            shp = np.broadcast_shapes(np.shape(a[n]), np.shape(b[n]))
                            same = close(np.broadcast_to(a[n], shp), np.broadcast_to(b[n], shp))
                        if not same:
                            ctx.fail(f"{c.name}:commute", f"{n}: {a[n]!r} from indexing first, {b[n]!r} from indexing last", index=kn, **info)
                            break
                    else:
                        ctx.trace()
    ctx.sample(call=c.name)
