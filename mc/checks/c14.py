"""C14 purity: every history of calls and parameter changes up to a depth, against the calls made alone."""

import itertools
import os
import pickle

import numpy as np

from mc.world import attempt, elsewhere, same, snapshot, worlds

ID = "C14"
LEVEL = "model_checking"
TECHNIQUE = "explicit-state exploration of every history of operations on shared objects, compared with each operation made alone in a fresh process"
RULE = (
    "state = (world, selected variant of each parameter of the shared objects); transition = one operation (any call, or assignment or in-place "
    "change of one parameter) executed on the real objects; trace = one history, of which every result was compared with the operation's result "
    "in a pristine process on fresh objects with the same parameters, and after which all parameters, arrays, earlier results and global state "
    "were compared with the expected ones"
)
ASSUMPTIONS = [
    "results are compared to a relative tolerance of 1e-9",
    "sampling with random_state=None is outside (it depends on the global random state by definition)",
    "the plot bounds are set before each plot; C17 explores their history",
]
BOUNDS = {
    "quick": "39 worlds: all histories of 2 operations within a world (incl. writes, sampling, plots), call-change-call for every call and change, all calls before and after every sequence of two changes, all ordered pairs of calls across worlds, and alternating between two sets of objects and data",
    "thorough": "all histories of 3 operations within a world, all ordered pairs of calls across worlds",
}
WORLDS = worlds()
PER = 8


def cheap():
    """the calls used across worlds"""
    return [(wn, i) for wn, w in WORLDS.items() for i, o in enumerate(w.ops) if o.kind != "plot"]


def units(tier):
    out = []
    for wn, w in WORLDS.items():
        n = len(w.ops) + len(w.writes)
        step = n if tier == "quick" else 2
        for a in range(0, n, step):
            out.append({"kind": "history", "world": wn, "first": [a, min(a + step, n)], "depth": 2 if tier == "quick" else 3})
        out.append({"kind": "chain", "world": wn, "writes": 2 if tier == "quick" else 3})
    out += [{"kind": "apart", "world": wn} for wn in WORLDS]
    pairs = cheap()
    for a in range(0, len(pairs), PER):
        out.append({"kind": "across", "first": [a, min(a + PER, len(pairs))]})
    return out


def in_child(f):
    """f() in a forked process, so that nothing it leaves behind can influence anything else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = pickle.dumps(f())
            with os.fdopen(w, "wb") as fh:
                fh.write(data)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def globals_of(full=True):
    import matplotlib as mpl

    st = np.random.get_state()
    return (st[0], st[1].tobytes(), st[2], st[3], st[4]), tuple(sorted(np.geterr().items())), full and repr(np.get_printoptions()), full and tuple(sorted((k, repr(v)) for k, v in dict.items(mpl.rcParams)))


def fresh(w, var):
    return w.make(var)


def alone(w, i, var):
    return in_child(lambda: attempt(w.ops[i].f, fresh(w, var)))


def needed_states(w, depth):
    """model states reachable by at most depth-1 writes"""
    out, frontier = {()}, {()}
    for _ in range(depth - 1):
        nxt = set()
        for s in frontier:
            for wr in w.writes:
                d = dict(s)
                d[wr.item] = wr.to
                nxt.add(tuple(sorted((k, v) for k, v in d.items() if v)))
        frontier = nxt - out
        out |= nxt
    return sorted(out)


def run(u, ctx):
    {"history": run_history, "across": run_across, "apart": run_apart, "chain": run_chain}[u["kind"]](u, ctx)


def run_chain(u, ctx):
    """every call, a change, every call again, another change, every call again; and each call alone around a change"""
    w, n = WORLDS[u["world"]], u["writes"]
    table = {s: in_child(lambda: [attempt(o.f, fresh(w, s)) for o in w.ops]) for s in needed_states(w, n + 1)}

    def after(var, wr):
        d = dict(var)
        d[wr.item] = wr.to
        return tuple(sorted((k, v) for k, v in d.items() if v))

    def go():
        fails, steps, traces = {}, 0, 0

        def call(world, i, var, hist):
            nonlocal steps
            steps += 1
            got = attempt(w.ops[i].f, world)
            if not same(got, table[var][i]):
                nm = w.ops[i].name
                fails.setdefault(nm, dict(key=f"result:{nm}", what=f"{nm} gives {str(got)[:200]} instead of {str(table[var][i])[:200]}", info=dict(history=hist + [nm], parameters=var)))
                return False
            return True

        depth = n if len(w.writes) < 14 else min(n, 2)
        for seq in itertools.chain.from_iterable(itertools.product(w.writes, repeat=k) for k in range(1, depth + 1)):
            if any(a is b for a, b in zip(seq, seq[1:])):
                continue
            world, var, hist, ok = fresh(w, ()), (), ["every call"], True
            ids = range(len(w.ops)) if len(seq) == 1 else [i for i, o in enumerate(w.ops) if o.kind != "plot"]
            for i in ids:
                ok &= call(world, i, var, hist[:-1])
            for wr in seq:
                wr.apply(world)
                var = after(var, wr)
                hist = hist + [wr.name]
                for i in ids:
                    ok &= call(world, i, var, hist)
                hist = hist + ["every call"]
            traces += ok
            if len(fails) > 6:
                break
        for wr in w.writes:
            for i in range(len(w.ops)):
                world = fresh(w, ())
                ok = call(world, i, (), [])
                wr.apply(world)
                traces += call(world, i, after((), wr), [w.ops[i].name, wr.name]) and ok
            if len(fails) > 6:
                break
        return dict(fails=list(fails.values()), steps=steps, traces=traces)

    out = in_child(go)
    ctx.step(out["steps"])
    ctx.trace(out["traces"])
    for s in table:
        ctx.state((w.name, "chain", s))
    for f in out["fails"]:
        ctx.fail(f"{w.name}:{f['key']}", f["what"], **f["info"])
    ctx.sample(world=w.name, history="all calls, change, all calls, change, all calls", changes=[x.name for x in w.writes])


def run_history(u, ctx):
    w = WORLDS[u["world"]]
    depth = u["depth"]
    if not any(u["first"][0] <= i < u["first"][1] for i in range(len(w.ops) + len(w.writes))):
        return
    # every operation alone, in a pristine process, for every model state
    table = {}
    for s in needed_states(w, depth):
        # one process per state for the cheap calls would hide what the first call of a process does
        if depth == 2 or not s:
            for i in range(len(w.ops)):
                table[i, s] = alone(w, i, s)
        else:
            got = in_child(lambda: [attempt(o.f, fresh(w, s)) for o in w.ops])
            for i, g in enumerate(got):
                table[i, s] = g
        ctx.state((w.name, s))
    out = in_child(lambda: explore(w, u["first"], depth, table))
    ctx.step(out["steps"])
    ctx.trace(out["traces"])
    for f in out["fails"]:
        ctx.fail(f"{w.name}:{f['key']}", f["what"], **f["info"])
    ctx.sample(world=w.name, objects=sorted(fresh(w, ())), last_history=out["last"])


def explore(w, first, depth, table):
    acts = [("op", i) for i in range(len(w.ops))] + [("write", i) for i in range(len(w.writes))]
    fails, steps, traces, last = {}, 0, 0, None
    before = globals_of()

    def name(a):
        return w.ops[a[1]].name if a[0] == "op" else w.writes[a[1]].name

    # histories of two need no write at the end; a plot is explored after everything, and before everything
    for a0 in acts[first[0] : first[1]]:
        for rest in itertools.product(acts, repeat=depth - 1):
            hist = (a0, *rest)
            if hist[-1][0] == "write":
                continue
            if depth > 2 and sum(x[0] == "op" and w.ops[x[1]].kind == "plot" for x in hist) > 1:
                continue
            world, var, results = fresh(w, ()), {}, []
            ok = True
            for k, a in enumerate(hist):
                steps += 1
                if a[0] == "write":
                    w.writes[a[1]].apply(world)
                    var[w.writes[a[1]].item] = w.writes[a[1]].to
                    if "[...]" in w.writes[a[1]].name:  # earlier results may share the array the user has just changed
                        results = [None] * len(results)
                    results.append(None)
                    continue
                op = w.ops[a[1]]
                snap = snapshot(world)
                try:
                    raw = op.f(world)
                except Exception as e:
                    raw = e
                from mc.world import norm

                got = norm(raw)
                state = tuple(sorted((x, v) for x, v in var.items() if v))
                info = dict(world=w.name, history=[name(x) for x in hist[: k + 1]], parameters=state)
                if not same(got, table[a[1], state]):
                    fails.setdefault(f"result:{op.name}", dict(key=f"result:{op.name}", what=f"{op.name} gives {str(got)[:200]} instead of {str(table[a[1], state])[:200]}", info=info))
                    ok = False
                now = snapshot(world)
                if now != snap and not same(now, snap):
                    diff = [(x, y) for x, y in zip(snap, now) if x != y][:2]
                    fails.setdefault(f"changed:{op.name}", dict(key=f"changed:{op.name}", what=f"{op.name} changed {str(diff)[:300]}", info=info))
                    ok = False
                full = op.kind == "plot" or steps % 100 == 0
                g = globals_of(full)
                if g[:2] != before[:2] or full and g != before:
                    what = [n for n, x, y in zip(("random state", "error state", "print options", "rcParams"), before, g) if x != y and y]
                    fails.setdefault(f"global:{op.name}", dict(key=f"global:{op.name}", what=f"{op.name} changed the global {what}", info=info))
                    before = globals_of()
                    ok = False
                # a result stays what it was
                for j, (r, n) in enumerate(x for x in results if x is not None):
                    if not same(norm(r), n):
                        fails.setdefault(f"earlier:{op.name}", dict(key=f"earlier:{op.name}", what=f"{op.name} changed the result of an earlier call", info=info))
                        ok = False
                results.append((raw, got) if not isinstance(raw, BaseException) else None)
                if len(fails) > 8:
                    return dict(steps=steps, traces=traces, fails=list(fails.values()), last=[name(x) for x in hist])
            traces += ok
            last = [name(x) for x in hist]
    return dict(steps=steps, traces=traces, fails=list(fails.values()), last=last)


def run_apart(u, ctx):
    """the same calls on other objects and other data before and between, which live on or are gone"""
    w = WORLDS[u["world"]]
    ids = [i for i, o in enumerate(w.ops) if o.kind != "plot"]
    here = in_child(lambda: {i: attempt(w.ops[i].f, fresh(w, ())) for i in ids})
    there = in_child(lambda: {i: attempt(w.ops[i].f, elsewhere(w)) for i in ids})

    def go():
        fails, steps, traces = {}, 0, 0
        for i in ids:
            for j in ids:
                ok = True
                a, b = fresh(w, ()), elsewhere(w)
                hist = []
                for world, k, table, where in ((a, j, here, "here"), (b, i, there, "elsewhere"), (a, j, here, "here"), (b, i, there, "elsewhere"), (None, j, there, "new objects elsewhere"), (None, i, here, "new objects here")):
                    if world is None:
                        a = b = None
                        world = elsewhere(w) if table is there else fresh(w, ())
                    steps += 1
                    hist.append(f"{w.ops[k].name} {where}")
                    got = attempt(w.ops[k].f, world)
                    if not same(got, table[k]):
                        nm = w.ops[k].name
                        fails.setdefault(nm, dict(key=f"result:{nm}", what=f"{nm} gives {str(got)[:200]} instead of {str(table[k])[:200]}", info=dict(history=list(hist))))
                        ok = False
                traces += ok
            if len(fails) > 6:
                break
        return dict(fails=list(fails.values()), steps=steps, traces=traces)

    out = in_child(go)
    ctx.step(out["steps"])
    ctx.trace(out["traces"])
    for i in ids:
        ctx.state((w.name, "apart", i))
    for f in out["fails"]:
        ctx.fail(f"{w.name}:{f['key']}", f["what"], **f["info"])
    ctx.sample(world=w.name, history="every pair of calls alternating between two sets of objects and data")


def run_across(u, ctx):
    ops = cheap()
    table = {}

    def many(part):
        return [attempt(WORLDS[wn].ops[i].f, WORLDS[wn].make()) for wn, i in part]

    # alone, in a pristine process: the first calls of this unit one by one, the others in reverse order
    mine = ops[u["first"][0] : u["first"][1]]
    for x in mine:
        table[x] = in_child(lambda: many([x]))[0]
    others = [x for x in reversed(ops) if x not in table]
    for x, r in zip(others, in_child(lambda: many(others))):
        table[x] = r

    def go():
        fails, steps, traces = {}, 0, 0
        worlds_ = {n: WORLDS[n].make() for n in WORLDS}
        snaps = {n: snapshot(worlds_[n]) for n in WORLDS}
        g0 = globals_of()[:2]
        for a in mine:
            for b in ops:
                for x in (a, b):
                    op = WORLDS[x[0]].ops[x[1]]
                    got = attempt(op.f, worlds_[x[0]])
                    steps += 1
                    if not same(got, table[x]):
                        fails.setdefault((x, "r"), dict(key=f"{x[0]}:result:{op.name}", what=f"{op.name} gives {str(got)[:200]} instead of {str(table[x])[:200]}", info=dict(after=[WORLDS[y[0]].ops[y[1]].name for y in (a, b)])))
                g = globals_of(False)[:2] if steps % 50 == 0 else g0
                if g != g0:
                    fails.setdefault("g", dict(key="global", what="the global state was changed", info=dict(after=str((a, b)))))
                    g0 = g
                traces += 1
                if len(fails) > 8:
                    break
            for n in WORLDS:
                if not same(snapshot(worlds_[n]), snaps[n]):
                    fails.setdefault(n, dict(key=f"{n}:changed", what="an object was changed", info=dict(first=str(a))))
                    worlds_[n] = WORLDS[n].make()
        return dict(fails=list(fails.values()), steps=steps, traces=traces)

    out = in_child(go)
    ctx.step(out["steps"])
    ctx.trace(out["traces"])
    for x in mine:
        ctx.state(("across", x))
    for f in out["fails"]:
        ctx.fail(f["key"], f["what"], **f["info"])
    ctx.sample(first=[WORLDS[x[0]].ops[x[1]].name for x in mine], then="every call of every world")
