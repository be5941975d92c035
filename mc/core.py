"""Explorer core: contexts, work units, parallel driver, evidence, replay files and known findings.

A check module provides

    ID, LEVEL, RULE, ASSUMPTIONS
    units(tier)      -> list of JSON-able work units, simplest first
    run(unit, ctx)   -> explores the unit completely and reports through ctx

Each unit is a complete, deterministic exploration of one part of the bounded space; together the units are the
whole space of the tier. A unit that raises is reported as a violation, because the harness itself does not raise on
code that keeps the property.
"""

import contextlib
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CONJ_REPO", "/repo")

MAX_FAILURES_PER_UNIT = 6
SAMPLES_PER_UNIT = 1


class StopUnit(Exception):
    """Enough violations in this unit."""


class UnitTimeout(BaseException):
    """The code under test did not come back."""


def jsonable(x, depth=0):
    """Readable, bounded JSON form of anything."""
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return x if x == x and abs(x) != float("inf") else repr(x)
    if depth < 5:
        if isinstance(x, dict):
            return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
        if isinstance(x, (list, tuple)):
            return [jsonable(v, depth + 1) for v in list(x)[:60]]
    try:
        return repr(x)[:400]
    except Exception as e:  # broken repr of a mutated object
        return f"<unprintable {type(x).__name__}: {e}>"


class Ctx:
    def __init__(self, unit, tier):
        self.unit = unit
        self.tier = tier
        self._states = set()
        self._nontrivial = set()
        self.n_states = 0
        self.n_nontrivial = 0
        self.transitions = 0
        self.evaluations = 0
        self.traces = 0
        self.samples = []
        self.failures = []
        self._keys = set()

    # -- counting -----------------------------------------------------------------------------
    def state(self, key):
        """Register a visited state. Returns True when it is new."""
        h = hash(key)
        if h in self._states:
            return False
        self._states.add(h)
        self.n_states += 1
        return True

    def step(self, n=1):
        self.transitions += n

    def eval(self, n=1, key=None):
        self.evaluations += n
        if key is not None:
            h = hash(key)
            if h not in self._nontrivial:
                self._nontrivial.add(h)
                self.n_nontrivial += 1

    def trace(self, n=1):
        """A complete trace of the reference model was replayed on the implementation and agreed."""
        self.traces += n

    def sample(self, **kw):
        if len(self.samples) < SAMPLES_PER_UNIT:
            self.samples.append(jsonable(kw))

    # -- reporting ----------------------------------------------------------------------------
    def fail(self, key, what, **detail):
        if key in self._keys:
            return
        self._keys.add(key)
        self.failures.append(
            {"key": key, "what": what, "detail": jsonable(detail), "unit": self.unit}
        )
        if len(self.failures) >= MAX_FAILURES_PER_UNIT:
            raise StopUnit

    @contextlib.contextmanager
    def guard(self, key, what="raised an exception", **detail):
        """The enclosed calls are valid uses: any exception is a violation."""
        try:
            yield
        except (StopUnit, UnitTimeout, KeyboardInterrupt):
            raise
        except Exception as e:
            self.fail(
                f"{key}:raises:{type(e).__name__}",
                f"{what}: {type(e).__name__}: {e}"[:500],
                traceback=traceback.format_exc()[-1500:],
                **detail,
            )

    def result(self):
        return {
            "unit": self.unit,
            "states": self.n_states,
            "nontrivial": self.n_nontrivial,
            "transitions": self.transitions,
            "evaluations": self.evaluations,
            "traces": self.traces,
            "samples": self.samples,
            "failures": self.failures,
        }


def _alarm(signum, frame):
    raise UnitTimeout()


def run_unit(check, unit, tier, limit):
    ctx = Ctx(unit, tier)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            check.run(unit, ctx)
    except StopUnit:
        pass
    except UnitTimeout:
        ctx.failures.append(
            {
                "key": "does-not-finish",
                "what": f"the exploration of this unit did not finish within {limit} s",
                "detail": None,
                "unit": unit,
            }
        )
    except Exception as e:
        ctx.failures.append(
            {
                "key": f"harness:{type(e).__name__}",
                "what": f"unexpected {type(e).__name__}: {e}"[:500],
                "detail": traceback.format_exc()[-2000:],
                "unit": unit,
            }
        )
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    r = ctx.result()
    r["wall"] = time.time() - t0
    return r


_CHECK = None
_TIER = None
_LIMIT = None


def _worker(unit):
    return run_unit(_CHECK, unit, _TIER, _LIMIT)


# -- known findings -----------------------------------------------------------------------------


def known_findings(prop):
    """Lines 'finding: property=<id> key=<exact key> | <what fails>' of known_findings.txt."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding: "):
            continue
        head, _, what = line[len("finding: ") :].partition(" | ")
        fields = dict(p.split("=", 1) for p in head.split(" ") if "=" in p)
        if fields.get("property") == prop:
            out[fields["key"]] = what
    return out


# -- driver -------------------------------------------------------------------------------------


def explore(check, tier, jobs=None):
    global _CHECK, _TIER, _LIMIT
    _CHECK, _TIER = check, tier
    _LIMIT = 240 if tier == "quick" else 780
    units = check.units(tier)
    deadline = time.time() + (700 if tier == "quick" else 6 * 3600)
    results, unfinished = [], []
    jobs = jobs or min(8, os.cpu_count() or 1)
    seen_fail = 0

    def pooled(todo, workers):
        nonlocal seen_fail
        lost = []
        ctxmp = mp.get_context("fork")
        ex = ProcessPoolExecutor(max_workers=workers, mp_context=ctxmp)
        try:
            futs = {ex.submit(_worker, u): u for u in todo}
            for f in as_completed(futs, timeout=max(1, deadline - time.time())):
                try:
                    r = f.result()
                    results.append(r)
                    seen_fail += bool(r["failures"])
                except BrokenProcessPool:
                    lost.append(futs[f])
                except Exception as e:
                    results.append(
                        {
                            "unit": futs[f], "states": 0, "nontrivial": 0, "transitions": 0,
                            "evaluations": 0, "traces": 0, "samples": [], "wall": 0,
                            "failures": [{"key": f"worker:{type(e).__name__}",
                                          "what": f"{type(e).__name__}: {e}"[:500],
                                          "detail": None, "unit": futs[f]}],
                        }
                    )
        except TimeoutError:
            done = {id(r["unit"]) for r in results}
            unfinished.extend(u for u in todo if id(u) not in done)
        finally:
            # no worker may outlive the check: it would keep its output open
            procs = list((getattr(ex, "_processes", None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                with contextlib.suppress(Exception):
                    p.kill()
            for p in procs:
                with contextlib.suppress(Exception):
                    p.join(5)
        return lost

    lost = pooled(units, jobs)
    for u in lost:  # a worker died: decide each lost unit on its own
        again = pooled([u], 1)
        if again:
            results.append(
                {
                    "unit": u, "states": 0, "nontrivial": 0, "transitions": 0, "evaluations": 0,
                    "traces": 0, "samples": [], "wall": 0,
                    "failures": [{"key": "process-died", "what": "the process running this unit died",
                                  "detail": None, "unit": u}],
                }
            )
    results.sort(key=lambda r: json.dumps(r["unit"], sort_keys=True, default=str))
    return units, results, unfinished


def write_replay(prop, failure):
    d = os.path.join(VERIF, "out", "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps({"property": prop, **failure}, indent=1, default=str)
    h = hashlib.sha1((prop + failure["key"] + json.dumps(failure["unit"], default=str)).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}-{h}.json")
    with open(path, "w") as f:
        f.write(body)
    return path


def main(check, tier, seed):
    t0 = time.time()
    prop = check.ID
    units, results, unfinished = explore(check, tier)
    known = known_findings(prop)
    failures = [f for r in results for f in r["failures"]]
    hit_known, bad = {}, []
    for f in failures:
        if f["key"] in known:
            hit_known[f["key"]] = known[f["key"]]
        else:
            bad.append(f)
    tot = {k: sum(r[k] for r in results) for k in ("states", "nontrivial", "transitions", "evaluations", "traces")}
    samples = []
    stride = max(1, len(results) // 6)
    for r in results[::stride]:
        for s in r["samples"]:
            if len(samples) < 8:
                samples.append(s)
    if not samples:
        samples = [{"unit": jsonable(results[0]["unit"] if results else None)}]
    coverage = {
        "states": tot["states"],
        "transitions": tot["transitions"],
        "traces_validated_against_impl": tot["traces"],
        "evaluations": tot["evaluations"],
        "distinct_nontrivial": tot["nontrivial"],
        "rule": check.RULE,
        "samples": samples,
        "units": len(units),
        "units_completed": len(results),
        "exhaustive": not unfinished and not bad,
        "bounds": getattr(check, "BOUNDS", {}).get(tier) if isinstance(getattr(check, "BOUNDS", None), dict) else getattr(check, "BOUNDS", None),
        "slowest_unit_s": round(max((r["wall"] for r in results), default=0), 2),
        "known_findings_seen": sorted(hit_known),
    }
    if check.LEVEL == "exploration":
        for k in ("states", "transitions", "traces_validated_against_impl"):
            if not coverage[k]:
                coverage.pop(k)
    elif not coverage["evaluations"]:
        coverage.pop("evaluations")
        coverage.pop("distinct_nontrivial")
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": coverage,
        "assumptions": list(check.ASSUMPTIONS),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(path + ".tmp", path)
    print(
        f"{prop} {tier}: units={len(results)}/{len(units)} states={tot['states']} transitions={tot['transitions']} "
        f"traces={tot['traces']} evaluations={tot['evaluations']} nontrivial={tot['nontrivial']} "
        f"violations={len(bad)} wall={ev['wall_s']}s"
    )
    for k, what in sorted(hit_known.items()):
        print(f"KNOWN-FINDING: property={prop} {what} [{k}]")
    if unfinished:
        # the time budget ran out before everything was explored: say so, it is not a violation
        print(f"NOTE: {len(unfinished)} units not explored within the time budget")
    if bad:
        shown = set()
        for f in bad:
            if f["key"] in shown:
                continue
            shown.add(f["key"])
            path = write_replay(prop, f)
            print(f"  {f['key']}: {f['what']}")
            print(f"VIOLATION property={prop} replay={path}")
            if len(shown) >= 12:
                break
        return 1
    return 0


def replay(check, path, tier):
    f = json.load(open(path))
    r = run_unit(check, f["unit"], tier, 780)
    same = [x for x in r["failures"] if x["key"] == f["key"]]
    for x in same or r["failures"]:
        print(json.dumps(x, indent=1, default=str))
    print("reproduced" if same else ("another violation" if r["failures"] else "not reproduced"))
    return 1 if r["failures"] else 0
