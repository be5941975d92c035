"""C15 concurrency: two threads on shared objects, every interleaving up to a preemption bound, under a controlled scheduler."""

import itertools
import os
import sys
import threading

from mc.checks.c14 import in_child
from mc.core import REPO
from mc.world import attempt, elsewhere, norm, same, snapshot, worlds

ID = "C15"
LEVEL = "model_checking"
TECHNIQUE = "stateless exploration of the real code under a controlled scheduler: every interleaving of two threads up to a preemption bound"
RULE = (
    "schedule = complete interleaving of two calls on the same objects, switching threads only at traced points (every line, or every bytecode "
    "instruction, executed in the package); transition = one traced point; trace = one schedule after which both results and all shared objects "
    "were compared with those of the calls made alone"
)
ASSUMPTIONS = [
    "NumPy and SciPy calls are atomic: switches happen between lines (thorough: also between bytecode instructions) of the package",
    "drawing is outside: pyplot is not made for threads",
]
BOUNDS = {
    "quick": "all pairs of calls within a world x all schedules with at most 1 preemption per thread order at line granularity; each call with itself: at most 2 preemptions (1 if the two have more than 60 points), and with itself on other objects: at most 1",
    "thorough": "the same with at most 2 preemptions for all pairs (1 if the two have more than 250 points), and at most 1 at bytecode granularity; all pairs of calls on separate objects: at most 1",
}
WORLDS = worlds()
ROOT = os.path.realpath(os.path.join(REPO, "conjugate")) + os.sep
LIMIT = 20.0


def calls(w):
    return [o for o in w.ops if o.kind != "plot" and "(s, arrays)" not in o.name and "(v, numbers)" not in o.name and o.name not in ("v[5]", "l[0]", "v[1:]")]


def units(tier):
    out = []
    for wn, w in WORLDS.items():
        n = len(calls(w))
        step = 6 if tier == "quick" else 2
        for a in range(0, n, step):
            if tier == "quick":
                out.append({"world": wn, "first": [a, a + step], "pre": 1, "self": 2, "fine": False})
            else:
                out.append({"world": wn, "first": [a, a + step], "pre": 2, "self": 2, "fine": False})
                out.append({"world": wn, "first": [a, a + step], "pre": 1, "self": 1, "fine": True})
    return out


class Deadlock(Exception):
    pass


class Sched:
    """Two threads, one baton. `switches`: sorted list of numbers of traced points (of the whole run) after which the other
    thread continues; a thread that ends passes the baton on."""

    def __init__(self, fns, first, switches, fine):
        self.fns, self.turn, self.switches, self.fine = fns, first, set(switches), fine
        self.sem = [threading.Semaphore(0), threading.Semaphore(0)]
        self.done = [False, False]
        self.points = 0
        self.result = [None, None]
        self.effective = []  # points at which a switch would change anything

    def point(self, me):
        self.points += 1
        if not self.done[1 - me]:
            self.effective.append(self.points)
        if self.points in self.switches and not self.done[1 - me]:
            self.sem[1 - me].release()
            if not self.sem[me].acquire(timeout=LIMIT):
                raise Deadlock

    def tracer(self, me):
        fine = self.fine

        def local(frame, event, arg):
            if event == ("opcode" if fine else "line"):
                self.point(me)
            return local

        def glob(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(ROOT):
                if fine:
                    frame.f_trace_opcodes = True
                return local
            return None

        return glob

    def body(self, me):
        if not self.sem[me].acquire(timeout=LIMIT):
            return
        try:
            sys.settrace(self.tracer(me))
            try:
                r = self.fns[me]()
            except Exception as e:
                r = e
            finally:
                sys.settrace(None)
            self.result[me] = r
        finally:
            self.done[me] = True
            self.sem[1 - me].release()

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.sem[self.turn].release()
        for t in ts:
            t.join(3 * LIMIT)
        if not all(self.done):
            raise Deadlock
        return self.result


def schedules(fns, bound, fine, ctx, check, cap=None):
    """every schedule with at most `bound` preemptions, by extending complete runs"""
    for first in (0, 1):
        stack = [()]
        while stack:
            sw = stack.pop()
            s = Sched(fns(), first, sw, fine)
            res = s.run()
            ctx.step(s.points)
            if not check(res, first, sw):
                return
            if not sw and cap and s.points > cap:
                bound = 1
            if len(sw) < bound:
                stack.extend(sw + (k,) for k in s.effective if not sw or k > sw[-1])


def run(u, ctx):
    w = WORLDS[u["world"]]
    ops = calls(w)
    mine = range(u["first"][0], min(u["first"][1], len(ops)))
    if not len(mine):
        return
    alone = in_child(lambda: [attempt(o.f, w.make()) for o in ops])
    apart = in_child(lambda: [attempt(o.f, elsewhere(w)) for o in ops])
    pairs = [(i, j, False) for i in mine for j in range(i, len(ops))] + [(i, j, True) for i in mine for j in range(len(ops)) if i == j or ctx.tier == "thorough"]
    for i, j, other in pairs:
        if not explore_pair(u, ctx, w, ops, i, j, other, alone, apart if other else alone):
            return
    ctx.sample(world=w.name, calls=[ops[i].name for i in mine], against="all calls of the world, and the same calls on other objects")


def explore_pair(u, ctx, w, ops, i, j, other, alone, second):
    a, b = ops[i], ops[j]
    bound = u["self"] if i == j and not other else u["pre"]
    if other:
        bound = 1

    def fresh():
        first = w.make()
        return (first, elsewhere(w)) if other else (first, first)

    shared = fresh()
    snaps = [snapshot(x) for x in shared]
    want = (alone[i], second[j])

    def fns():
        return [lambda: a.f(shared[0]), lambda: b.f(shared[1])]

    def check(res, first, sw):
        nonlocal shared
        ctx.trace()
        ctx.state((w.name, i, j, other, first, sw, u["fine"]))
        got = [norm(r) for r in res]
        info = dict(world=w.name, calls=[a.name, b.name], shared=not other, first=first, switches_after_points=sw, granularity="bytecode" if u["fine"] else "line")
        for k in (0, 1):
            if not same(got[k], want[k]):
                ctx.fail(f"{w.name}:{(a, b)[k].name}:interference", f"{(a, b)[k].name} gives {str(got[k])[:200]} instead of {str(want[k])[:200]} while {(b, a)[k].name} runs{' on other objects' if other else ''}", **info)
                shared = fresh()
                return False
        now = [snapshot(x) for x in shared]
        if now != snaps and not all(same(x, y) for x, y in zip(now, snaps)):
            ctx.fail(f"{w.name}:{a.name}:{b.name}:changed", "a shared object was changed", **info)
            shared = fresh()
            return False
        return True

    try:
        schedules(fns, bound, u["fine"], ctx, check, cap=60 if ctx.tier == "quick" else 250)
    except Deadlock:
        ctx.fail(f"{w.name}:{a.name}:{b.name}:deadlock", "the calls wait for each other", calls=[a.name, b.name])
        return False
    return True
