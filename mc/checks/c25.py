"""C25 A saved, copied or rebuilt distribution goes on exactly like the original.

Every point of every history is a possible save point: there the shared objects of a world are replaced by what a way
of saving and restoring gives back, and the history goes on with them. Each later result must be the one the call
gives on objects that were never saved, and from then on the original and the restored objects must be independent.
"""

import base64
import copy
import dataclasses
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from conjugate import distributions as D
from mc.world import attempt, bounds_of, is_dist, norm, same, worlds

ID = "C25"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of every history of operations with a save and restore at every point, by every way of saving, on the real objects and across real processes, against the history without it"
RULE = (
    "state = (world, parameters selected by the changes so far, ways of saving gone through); transition = one operation, parameter change or save and "
    "restore of the real objects; trace = one history of which the result after the restore was the result on objects that were never saved, and after "
    "which the original and the restored objects did not influence each other"
)
ASSUMPTIONS = [
    "ways of saving: copy, deepcopy, pickle protocols 0 to 5, dataclasses.replace, the constructor with the fields by name and by position, repr of objects with number parameters",
    "copy, replace and the constructor share parameter arrays with the original; only deepcopy and pickle are judged on changes inside an array",
    "results are compared to a relative tolerance of 1e-9",
]
BOUNDS = {
    "quick": "39 worlds: every history operation-restore-operation for 8 ways of restoring, every change before or after a restore, two restores in a row, bounds, equality, and a restore in another process after every step of an update sequence; every class with fields of 28 sizes and types at every two fields",
    "thorough": "also every history of two operations, restore, operation",
}
WORLDS = worlds()


def by_name(o):
    return type(o)(**{f.name: getattr(o, f.name) for f in dataclasses.fields(o)})


def by_position(o):
    return type(o)(*[getattr(o, f.name) for f in dataclasses.fields(o)])


def pickled(p):
    return lambda o: pickle.loads(pickle.dumps(o, protocol=p))


WAYS = {
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
    "pickle 0": pickled(0),
    "pickle 2": pickled(2),
    "pickle 5": pickled(5),
    "replace": dataclasses.replace,
    "by name": by_name,
    "by position": by_position,
}
DEEP = {"deepcopy", "pickle 0", "pickle 2", "pickle 5"}
KEEPS = DEEP | {"copy"}  # ways that keep everything the object holds, the plot bounds among it


def restore(world, way):
    return {k: WAYS[way](v) if is_dist(v) else v for k, v in world.items()}


def units(tier):
    out = []
    for wn, w in WORLDS.items():
        n = len(w.ops) + len(w.writes)
        step = (n + 1) // 2 if tier == "quick" else 2
        for a in range(0, n, step):
            out.append({"kind": "history", "world": wn, "first": [a, min(a + step, n)], "depth": 1 if tier == "quick" else 2})
        out.append({"kind": "apart", "world": wn})
        out.append({"kind": "process", "world": wn})
    out += [{"kind": "values", "world": None, "cls": c} for c in sorted(CLASSES)]
    return out


def after(var, wr):
    d = dict(var)
    d[wr.item] = wr.to
    return tuple(sorted((k, v) for k, v in d.items() if v))


class Table:
    """results on objects that were never saved"""

    def __init__(self, w):
        self.w, self.seen = w, {}

    def __getitem__(self, key):
        i, var = key
        if key not in self.seen:
            self.seen[key] = attempt(self.w.ops[i].f, self.w.make(var))
        return self.seen[key]


def run(u, ctx):
    if u["kind"] == "values":
        run_values(u, ctx)
        return
    {"history": run_history, "apart": run_apart, "process": run_process}[u["kind"]](WORLDS[u["world"]], u, ctx)


CLASSES = {n: o for n, o in vars(D).items() if isinstance(o, type) and dataclasses.is_dataclass(o) and o.__module__ == D.__name__}
_M = np.array([[2.0, 0.5], [0.5, 1.0]])
_A = np.array([0.5, 30.25, 2.0])
MV = {
    "MultivariateNormal": [dict(mu=_A[:2], cov=_M)],
    "MultivariateStudentT": [dict(mu=_A[:2], sigma=_M, nu=3.5)],
    "InverseWishart": [dict(nu=3.5, psi=_M)],
    "Wishart": [dict(nu=3.5, V=_M)],
    "NormalWishart": [dict(mu=_A[:2], lam=1.5, W=_M, nu=3.5)],
    "NormalInverseWishart": [dict(mu=_A[:2], kappa=1.5, nu=3.5, psi=_M)],
    "Dirichlet": [dict(alpha=_A)],
    "DirichletMultinomial": [dict(alpha=_A, n=3)],
    "Multinomial": [dict(n=3, p=np.array([0.25, 0.75]))],
    "NormalInverseGamma": [dict(mu=1.5, nu=2.0, alpha=3.5, beta=4.0), dict(mu=_A[:2], delta_inverse=_M, alpha=3.5, beta=4.0)],
}
NUMBERS = [0, 1, 2, 3.0, 0.125, 1 / 3, 1e-9, 30.5, 99, 170.75, 1000, 12345.678, 1e9 / 7, 2**31, 2**53 + 1, -0.75, -40, np.float64(2.5), np.float32(0.1), np.int64(7), np.int16(300), np.float64(1e300)]


def variants(v):
    """other values of a field, of all sizes, types and layouts"""
    if isinstance(v, bool) or v is None:
        return [v]
    if np.ndim(v) == 0:
        return NUMBERS + [np.array(2.5), np.array([1.0, 30.5, 1e6 / 3]), np.array([1, 2, 3]), np.array([[1.5, 2.0, 300.25]]), np.array([0.1, 0.7], np.float32), np.array([2.5])]
    return [v, v * 1e-9, v * 1234.5, v.astype(np.float32), v.round().astype(np.int64) + 1, np.asfortranarray(v), v[..., ::-1], np.tile(v, 5) if v.ndim == 1 else np.kron(np.eye(3), v)]


def alike(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.dtype == b.dtype and a.shape == b.shape and bool(np.array_equal(a, b))
    return type(a) is type(b) and (a == b or a is b)


def run_values(u, ctx):
    """fields of every size, type and layout, for every two fields of a class: no way of saving changes them"""
    import itertools

    from mc.world import UNI

    cls = CLASSES[u["cls"]]
    for base in MV.get(u["cls"]) or [UNI[u["cls"]][0]]:
        names = list(base)
        seen = set()
        for a, b in itertools.combinations(names, 2) if len(names) > 1 else [(names[0], names[0])]:
            for (i, va), (j, vb) in itertools.product(enumerate(variants(base[a])), enumerate(variants(base[b]))):
                fields = {**base, b: vb, a: va}
                key = (a, i, b, j)
                if key in seen:
                    continue
                seen.add(key)
                try:
                    o = cls(**fields)
                except Exception:  # not a valid combination for this class
                    continue
                held = {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}
                ctx.state((u["cls"], key))
                for way, f in WAYS.items():
                    ctx.step()
                    info = dict(cls=u["cls"], fields={k: repr(v) for k, v in fields.items()}, way=way)
                    with ctx.guard(f"{u['cls']}:values", f"{way} of a {u['cls']}", **info):
                        r = f(o)
                        if type(r) is not cls:
                            ctx.fail(f"{u['cls']}:values:class", f"{way} gives a {type(r).__name__}", **info)
                            continue
                        other = [k for k, v in held.items() if not alike(v, getattr(r, k))]
                        if other:
                            ctx.fail(f"{u['cls']}:values:{way}", f"{way} of a {u['cls']} changes {other[0]} from {held[other[0]]!r} to {getattr(r, other[0])!r}", **info)
                            continue
                        ctx.trace()
    ctx.sample(cls=u["cls"], numbers=len(NUMBERS))


def run_history(w, u, ctx):
    table = Table(w)
    acts = [("op", i) for i in range(len(w.ops))] + [("write", i) for i in range(len(w.writes))]
    calls = [i for i, o in enumerate(w.ops)]
    cheap = [i for i, o in enumerate(w.ops) if o.kind != "plot"]

    def do(world, var, a, check, info):
        kind, i = a
        ctx.step()
        if kind == "write":
            w.writes[i].apply(world)
            return after(var, w.writes[i]), True
        got = attempt(w.ops[i].f, world)
        if check and not same(got, table[i, var]):
            ctx.fail(f"{w.name}:{info['way']}:{w.ops[i].name}", f"{w.ops[i].name} gives {str(got)[:200]} instead of {str(table[i, var])[:200]}", parameters=var, **info)
            return var, False
        return var, True

    def name(a):
        return w.ops[a[1]].name if a[0] == "op" else w.writes[a[1]].name

    for a0 in acts[u["first"][0] : u["first"][1]]:
        for a1 in [None] if u["depth"] == 1 else acts:
            for way in WAYS:
                # one operation, restore, every operation: on one restored world if nothing goes wrong, each operation also first on its own
                for lone in (False, True):
                    for y in [None] if not lone else calls if a0[0] == "op" and u["depth"] == 1 else []:
                        world, var, hist = w.make(), (), [name(a0)]
                        var, _ = do(world, var, a0, False, {})
                        if a1 is not None:
                            var, _ = do(world, var, a1, False, {})
                            hist.append(name(a1))
                        info = dict(world=w.name, way=way, history=hist)
                        with ctx.guard(f"{w.name}:{way}", **info):
                            back = restore(world, way)
                            ctx.step()
                            ok = True
                            for i in [y] if lone else calls if a0[0] == "write" and a1 is None else cheap:
                                _, good = do(back, var, ("op", i), True, info)
                                ok = ok and good
                            ctx.state((w.name, var, way, str(hist), y))
                            ctx.eval(key=(w.name, str(hist), way, y))
                            ctx.trace(ok)
                    if w.ops[a0[1]].kind == "plot" if a0[0] == "op" else False:
                        break
    ctx.sample(world=w.name, ways=list(WAYS), operations=[name(a) for a in acts])


def params(world):
    return norm({k: norm(v) for k, v in world.items() if is_dist(v)})


def run_apart(w, u, ctx):
    """changes after a restore, two restores in a row, bounds, equality and repr"""
    table = Table(w)
    cheap = [i for i, o in enumerate(w.ops) if o.kind != "plot"]
    for way in WAYS:
        for side in ("restored", "original"):
            for wr in w.writes:
                inplace = "..." in wr.name
                if inplace and way not in DEEP:
                    continue
                info = dict(world=w.name, way=way, change=wr.name, side=side)
                with ctx.guard(f"{w.name}:{way}:change", **info):
                    world = w.make()
                    back = restore(world, way)
                    changed, other = (back, world) if side == "restored" else (world, back)
                    wr.apply(changed)
                    ctx.step(2)
                    ok = True
                    for wo, var in ((changed, after((), wr)), (other, ())):
                        for i in cheap:
                            ctx.step()
                            got = attempt(w.ops[i].f, wo)
                            if not same(got, table[i, var]):
                                ok = False
                                ctx.fail(f"{w.name}:{way}:apart:{w.ops[i].name}", f"after a change of the {side} object, {w.ops[i].name} of the {'changed' if wo is changed else 'other'} one gives {str(got)[:200]} instead of {str(table[i, var])[:200]}", **info)
                    ctx.state((w.name, way, wr.name, side))
                    ctx.eval(key=(w.name, way, wr.name, side))
                    ctx.trace(ok)
        for way2 in WAYS:
            with ctx.guard(f"{w.name}:{way}:{way2}", world=w.name, ways=[way, way2]):
                back = restore(restore(w.make(), way), way2)
                ctx.step(2)
                ok = True
                for i in cheap:
                    got = attempt(w.ops[i].f, back)
                    ctx.step()
                    if not same(got, table[i, ()]):
                        ok = False
                        ctx.fail(f"{w.name}:{way}:twice:{w.ops[i].name}", f"after {way} and {way2}, {w.ops[i].name} gives {str(got)[:200]} instead of {str(table[i, ()])[:200]}", ways=[way, way2])
                ctx.state((w.name, way, way2))
                ctx.eval(key=(w.name, way, way2))
                ctx.trace(ok)
        # replace with another value of one field: the object with that value
        for wr in w.writes:
            if "..." in wr.name or way != "replace":
                continue
            item, field = wr.item.split(".", 1)
            with ctx.guard(f"{w.name}:replace:{field}", world=w.name, change=wr.name):
                world, target = w.make(), w.make([(wr.item, wr.to)])
                world[item] = dataclasses.replace(world[item], **{field: getattr(target[item], field)})
                ctx.step()
                ok = True
                for i in range(len(w.ops)):
                    got = attempt(w.ops[i].f, world)
                    ctx.step()
                    want = table[i, tuple(sorted((k, v) for k, v in [(wr.item, wr.to)] if v))]
                    if not same(got, want):
                        ok = False
                        ctx.fail(f"{w.name}:replace-field:{w.ops[i].name}", f"after replace({field}=...), {w.ops[i].name} gives {str(got)[:200]} instead of {str(want)[:200]}", change=wr.name)
                ctx.eval(key=(w.name, "replace", wr.name))
                ctx.trace(ok)
        with ctx.guard(f"{w.name}:{way}:bounds", world=w.name, way=way):
            bounds(w, way, ctx)
    equality(w, ctx)


def bounds(w, way, ctx):
    for k, o in w.make().items():
        if not is_dist(o) or not hasattr(o, "set_bounds"):
            continue
        default = bounds_of(o)
        for setter in ("nothing", "min", "max", "both"):
            o = w.make()[k]
            if setter in ("min", "both"):
                o.set_min_value(-2.0)
            if setter in ("max", "both"):
                o.set_max_value(7.5)
            want = bounds_of(o)
            r = WAYS[way](o)
            ctx.step(2)
            if bounds_of(r) != (want if way in KEEPS else default) and not (way not in KEEPS and bounds_of(r) == want):
                ctx.fail(f"{w.name}:{way}:bounds", f"{k} restored by {way} has the bounds {bounds_of(r)} instead of {want}", bounds=setter)
            r.set_min_value(1.0)
            r.set_max_value(2.0)
            if bounds_of(o) != want:
                ctx.fail(f"{w.name}:{way}:bounds-shared", f"new bounds of {k} restored by {way} changed those of the original", bounds=setter)
            o.set_min_value(-9.0)
            o.set_max_value(9.0)
            if bounds_of(r) != [1.0, 2.0]:
                ctx.fail(f"{w.name}:{way}:bounds-shared", f"new bounds of the original {k} changed those of the restored", bounds=setter)
            ctx.trace()


def equality(w, ctx):
    """objects with equal numbers as parameters are equal, with a different number are not; repr rebuilds the object"""
    for k, o in w.make().items():
        if not is_dist(o):
            continue
        fs = {f.name: getattr(o, f.name) for f in dataclasses.fields(o)}
        if not all(v is None or isinstance(v, (int, float)) for v in fs.values()):
            continue
        with ctx.guard(f"{w.name}:equality", world=w.name):
            for way in WAYS:
                ctx.step()
                if not o == WAYS[way](o):
                    ctx.fail(f"{w.name}:equality", f"{k} is not equal to itself restored by {way}", parameters=fs)
            for f, v in fs.items():
                if v is None:
                    continue
                other = copy.copy(o)
                setattr(other, f, v + 1)
                ctx.step()
                if o == other:
                    ctx.fail(f"{w.name}:equality", f"{k} is equal to an object with another {f}", parameters=fs)
            back = eval(repr(o), dict(vars(D)))
            ctx.step()
            if norm(back) != norm(o) or not back == o:
                ctx.fail(f"{w.name}:repr", f"repr {o!r} gives back {back!r}", parameters=fs)
            ctx.trace()


RESUME = """
import base64, json, os, pickle, sys
sys.path.insert(0, os.environ["MC_VERIF"])
import check
check.import_code()
from mc.checks import c25
job = json.load(sys.stdin)
w = c25.WORLDS[job["world"]]
out = []
for item in job["saved"]:
    world = w.make([tuple(x) for x in item["var"]])
    for k, v in item["objects"].items():
        world[k] = pickle.loads(base64.b64decode(v))
    out.append([c25.attempt(o.f, world) for o in w.ops])
sys.stdout.write(base64.b64encode(pickle.dumps(out)).decode())
"""


def run_process(w, u, ctx):
    """save after each step, resume in another process"""
    table = Table(w)
    saved, steps = [], []
    first = [(f"{o.name}", (), i) for i, o in enumerate(w.ops)]
    writes = [(wr.name, after((), wr), wr) for wr in w.writes]
    for nm, var, what in [("nothing", (), None), *first, *writes]:
        for protocol in (0, 5) if what is None else (pickle.DEFAULT_PROTOCOL,):
            world = w.make()
            if isinstance(what, int):
                attempt(w.ops[what].f, world)
            elif what is not None:
                what.apply(world)
            with ctx.guard(f"{w.name}:save", world=w.name, history=[nm]):
                objs = {k: base64.b64encode(pickle.dumps(v, protocol=protocol)).decode() for k, v in world.items() if is_dist(v)}
                saved.append({"var": list(var), "objects": objs})
                steps.append((nm, var))
    if len(saved) < len(steps) or not saved:
        return
    env = dict(os.environ, MC_VERIF=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-c", RESUME], input=json.dumps({"world": w.name, "saved": saved}), capture_output=True, text=True, env=env, timeout=200)
    if p.returncode:
        ctx.fail(f"{w.name}:resume", "a saved distribution could not be resumed in another process: " + p.stderr.strip()[-300:], world=w.name)
        return
    for (nm, var), got in zip(steps, pickle.loads(base64.b64decode(p.stdout))):
        ok = True
        for i, g in enumerate(got):
            ctx.step()
            if not same(g, table[i, var]):
                ok = False
                ctx.fail(f"{w.name}:process:{w.ops[i].name}", f"resumed in another process after {nm}, {w.ops[i].name} gives {str(g)[:200]} instead of {str(table[i, var])[:200]}", history=[nm])
        ctx.state((w.name, "process", nm))
        ctx.eval(key=(w.name, "process", nm))
        ctx.trace(ok)
