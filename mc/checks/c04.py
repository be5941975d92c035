"""C04 unnormalised families and log likelihoods."""

import itertools
import math

import numpy as np

from conjugate import distributions as D
from mc import lattice as L
from mc import ref
from mc.spec import PROPORTIONAL, specs

ID = "C04"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state model checking: every multiset of observations up to a bound, real updates and log likelihoods against reference machines"
RULE = (
    "state = (prior, known parameter, multiset of observations or tuple of summary arguments); transition = one real "
    "update; each state: exact hyperparameters, and log likelihood method of posterior minus that of prior minus log "
    "likelihood of the data constant over a parameter grid; plus every log likelihood method against its definition on a "
    "product of hyperparameters and parameters, element by element for arrays"
)
ASSUMPTIONS = ["float results agree with exact arithmetic within 1e-9 relative to the summed terms"]
BOUNDS = {
    "quick": "multisets of up to 3 observations; argument products; wide parameter grids for the methods",
    "thorough": "multisets of up to 5 observations; larger argument products; wide parameter grids for the methods",
}

WIDE = {
    "gamma": (dict(p=[1e-9, 0.25, 1, 3.5, 1e6], q=[1e-3, 1, 40.5, 1e5], r=[1, 2.5, 100], s=[1, 7, 1000]),
              [1e-3, 0.25, 1.0, 2.5, 30.0, 1e4], [1e-3, 0.5, 1.0, 20.0, 1e4]),
    "gamma_known_rate": (dict(a=[1e-9, 0.25, 1, 3.5, 1e6], b=[1, 2.5, 100, 1e5], c=[1, 7, 1000]),
                         [1e-3, 0.25, 1.0, 2.5, 30.0, 1e4], [1e-3, 0.5, 1.0, 20.0, 1e4]),
    "beta": (dict(p=[1e-9, 0.25, 0.75, 1], q=[1e-9, 0.5, 1], k=[1, 2.5, 100, 1e5]),
             [1e-3, 0.25, 1.0, 2.5, 30.0, 1e4], [1e-3, 0.5, 1.0, 20.0, 1e4]),
    "von_mises_known_concentration": (dict(a=[0, 0.01, 1, 7.5, 90.0, 800.0, 1e5], b=[0, 0.3, math.pi / 2, 3, math.pi, 5, 6.2]),
                                      [-7.0, -math.pi, -1.0, 0.0, 0.4, 2.0, math.pi, 4.5, 6.3], [None]),
    "von_mises_known_direction": (dict(c=[0, 1, 2.5, 100], r=[0, 0.75, 3, 60.5]),
                                  [0.0, 1e-3, 0.5, 1.0, 4.0, 60.0, 800.0, 1e5], [None]),
}


def units(tier):
    out = L.lattice_units(PROPORTIONAL, 3 if tier == "quick" else 5, per=6)
    out += L.sweep_units(L.SWEEP_PROP, tier)
    return out + [{"kind": "method", "model": n} for n in PROPORTIONAL]


def run(u, ctx):
    if u["kind"] == "lattice":
        L.run_lattice(u, ctx, lib=True)
    elif u["kind"] == "sweep":
        L.run_sweep(u, ctx)
    elif u["kind"] == "types":
        L.run_types(u, ctx)
    else:
        run_method(u, ctx)


def run_method(u, ctx):
    s = specs[u["model"]]
    fields, t0s, t1s = WIDE[s.name]
    exact = getattr(s, "exact_definition", False)
    offsets = []
    known_rate = s.name == "gamma_known_rate"
    for vals in itertools.product(*fields.values()):
        f = dict(zip(fields, vals))
        obj = s.cls(**f)
        for form in ("scalar", "vector"):
            pts = []
            ks = [{"beta": b} for b in t1s] if known_rate else [{}]
            for kn in ks:
                th = list(t0s) if (known_rate or t1s == [None]) else list(itertools.product(t0s, t1s))
                ctx.state((s.name, vals, form, str(kn)))
                info = dict(model=s.name, fields=f, known=kn, form=form)
                with ctx.guard(f"{s.name}:method", **info):
                    if form == "scalar":
                        got = [s.lib(obj, t, kn) for t in th]
                    else:
                        tt = np.array(th)
                        got = s.lib(obj, (tt[:, 0], tt[:, 1]) if tt.ndim == 2 else tt, kn)
                        if np.shape(got) != (len(th),):
                            ctx.fail(f"{s.name}:method shape", f"shape {np.shape(got)} for {len(th)} values", **info)
                            continue
                    ctx.step(len(th))
                    got = [float(g) for g in got]
                    want = [s.definition(t, f, kn) for t in th]
                    # the terms that cancel in the sum bound the rounding error
                    mag = [terms(s.name, t, f, kn) for t in th]
                    diff = [g - w for g, w in zip(got, want)]
                    tol = 1e-10 * (1 + max(mag))
                    if not all(map(math.isfinite, got)):
                        ctx.fail(f"{s.name}:method", f"log likelihood {got} is not finite where {want} is expected", thetas=th, **info)
                    elif max(diff) - min(diff) > tol:
                        ctx.fail(f"{s.name}:method", f"log likelihood {got} differs from its definition {want} by more than a constant", thetas=th, **info)
                    else:
                        if exact:
                            offsets.append((diff[0], tol))
                        pts.append(got)
                        ctx.trace()
    if exact and offsets:
        o, t = min(offsets, key=lambda x: x[1])
        if any(abs(d - o) > t + tt for d, tt in offsets):
            ctx.fail(f"{s.name}:normaliser", f"{s.name}: normalising term depends on the hyperparameters", offsets=offsets[:20])
    ctx.sample(model=s.name, fields=f, values=got[:4])


def terms(name, t, f, kn):
    a = t[0] if isinstance(t, tuple) else t
    b = t[1] if isinstance(t, tuple) else kn.get("beta", 1.0)
    lg = lambda x: abs(math.lgamma(x))
    if name in ("gamma", "gamma_known_rate"):
        n = max(f.get("r", 0), f.get("s", 0), f.get("b", 0), f.get("c", 0))
        return n * (lg(a) + a * abs(math.log(b))) + a * 25 + f.get("q", 0) * b
    if name == "beta":
        return f["k"] * (lg(a) + lg(b) + lg(a + b)) + 25 * (a + b)
    return abs(a) * (f.get("c", 1) + f.get("r", 1)) + f.get("a", 1)
