"""Runner: drives the generated cases of one property and reports.

A property module provides

    ID       property identifier,
    RULE     how cases are made and what makes one non-trivial,
    FAMILIES dict: name -> (weight, generate, run),

where `generate(c)` builds one JSON-serialisable case out of choices that are made with
the :class:`.gen.Ctx` `c`, and `run(case, t)` executes that case against the code under
test and an oracle. `run` calls `t.violate(...)` (or uses `t.sut(...)`) to report a
violation of the property, `t.tag(...)` to classify the case, and `t.trivial()` if the
case does not exercise the property.

Everything that is random is a Hypothesis choice, and every run is a function of the
code under test, the tier, and `VERIF_SEED`.
"""

import hashlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
from collections import Counter
from contextlib import contextmanager

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
#: Examples per Hypothesis run. Long runs get slow, so the budget of a worker is spread
#: over multiple runs with different seeds.
ROUND = 1500
SHRINK_SECONDS = 60
SHRINK_CALLS = 3000


class Violation(Exception):
    """The property does not hold for a case."""


class Rejected(Exception):
    """The code under test refused the input in a way that the property permits."""


#: A case normally takes milliseconds. One that takes this long is abandoned.
CASE_SECONDS = 60


class _Slow(BaseException):
    """A case takes too long."""


def _slow(*_):
    raise _Slow()


class _Stop(BaseException):
    """Unwind out of Hypothesis."""


class Trace:
    """Classification of one case and the means to report a violation."""

    def __init__(self):
        self.tags = []
        self.nontrivial = True
        #: Used to build equal operands as one object.
        self.memo = None

    def tag(self, *tags):
        self.tags.extend(tags)

    def trivial(self):
        self.nontrivial = False

    def violate(self, msg):
        raise Violation(msg)

    def require(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    @contextmanager
    def sut(self, what, allow=()):
        """Run code under test: an exception is a violation, unless it is one that the
        property permits, in which case `Rejected` is raised."""
        try:
            yield
        except (Violation, Rejected):
            raise
        except allow as e:
            raise Rejected(f"{what}: {type(e).__name__}") from e
        except Exception as e:
            where = _where(e)
            msg = str(e).split("\n")[0][:200]
            raise Violation(f"{what} raised {type(e).__name__}: {msg} [{where}]") from e


def _where(e):
    frames = traceback.extract_tb(e.__traceback__)
    inside = [f for f in frames if "/matrix/" in f.filename and "site-packages" not in f.filename]
    f = (inside or frames)[-1]
    return f"{os.path.basename(f.filename)}:{f.lineno}"


def run_case(prop, case):
    """Run one case. Returns the trace. Raises `Violation` in case of a violation."""
    t = Trace()
    _, _, run = prop.FAMILIES[case["f"]]
    t.tag(f"family:{case['f']}")
    if case.get("alias"):
        t.memo = {}
        t.tag("aliased")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = signal.signal(signal.SIGALRM, _slow)
        signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS)
        try:
            run(case, t)
        except Rejected:
            t.tag("rejected")
            t.trivial()
        except _Slow:
            # Without a verdict.
            t.tag("abandoned")
            t.trivial()
        except (Violation, MemoryError):
            raise
        except Exception as e:
            # What came out of an operation could not even be looked at.
            msg = str(e).split("\n")[0][:200]
            raise Violation(f"the result is unusable: {type(e).__name__}: {msg} [{_where(e)}]") from e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
    return t


def digest(case):
    return hashlib.blake2b(
        json.dumps(case, sort_keys=True).encode(), digest_size=8
    ).digest()


def derive_seed(*parts):
    h = hashlib.blake2b("/".join(map(str, parts)).encode(), digest_size=6)
    return int.from_bytes(h.digest(), "big")


# Known findings -----------------------------------------------------------------------


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [e for e in json.load(f)["known"] if e["property"] == pid]


def is_known(known, prop, case, msg):
    fn = getattr(prop, "matches_known", None)
    for e in known:
        if fn is not None and fn(e, case, msg):
            return e
    return None


# Worker -------------------------------------------------------------------------------


def _strategy(prop, max_depth_bytes=None):
    from hypothesis.strategies import SearchStrategy

    from .gen import Ctx

    names = list(prop.FAMILIES)
    weights = [prop.FAMILIES[n][0] for n in names]
    table = [n for n, w in zip(names, weights) for _ in range(w)]

    class Cases(SearchStrategy):
        def do_draw(self, data):
            name = table[data.draw_integer(0, len(table) - 1)]
            c = Ctx(data)
            case = prop.FAMILIES[name][1](c)
            case["f"] = name
            if c.reused and c.chance(2):
                case["alias"] = True
            return case

        def __repr__(self):
            return "Cases()"

    return Cases()


def worker(prop_name, tier, seed, index, n, budget, queue):
    try:
        res = _worker(prop_name, tier, seed, index, n, budget)
    except BaseException as e:  # noqa
        res = {"index": index, "harness_error": "".join(traceback.format_exception(e))[-4000:]}
    queue.put(res)


def _worker(prop_name, tier, seed, index, n, budget):
    prop = load(prop_name)
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import seed as hseed
    from hypothesis.errors import Flaky

    known = load_known(prop.ID)
    start = time.monotonic()
    out = {
        "index": index,
        "evaluations": 0,
        "regressions": 0,
        "nontrivial": set(),
        "tags": Counter(),
        "samples": [],
        "failure": None,
        "known": {},
        "timed_out": False,
    }
    strategy = _strategy(prop)
    state = {"first": None, "calls": 0, "best": None}

    def one(case):
        # A time budget only ever makes the run less conclusive.
        if state["first"] is None:
            if time.monotonic() - start > budget:
                out["timed_out"] = True
                raise _Stop()
        else:
            state["calls"] += 1
            if (
                time.monotonic() - state["first"] > SHRINK_SECONDS
                or state["calls"] > SHRINK_CALLS
            ):
                raise _Stop()
        text = json.dumps(case, sort_keys=True)
        case = json.loads(text)
        try:
            t = run_case(prop, case)
        except Violation as e:
            entry = is_known(known, prop, case, str(e))
            if entry is not None:
                out["known"].setdefault(entry["id"], {"what": entry["what"], "count": 0})
                out["known"][entry["id"]]["count"] += 1
                return
            if state["first"] is None:
                state["first"] = time.monotonic()
            if state["best"] is None or (len(text), text) < state["best"][:2]:
                state["best"] = (len(text), text, str(e))
            raise
        if state["first"] is None:
            out["evaluations"] += 1
            out["tags"].update(set(t.tags))
            if t.nontrivial:
                d = digest(case)
                if d not in out["nontrivial"]:
                    out["nontrivial"].add(d)
                    if len(text) < 1500 and out["evaluations"] % 37 == 5 and len(out["samples"]) < 3:
                        out["samples"].append(case)

    if index == 0:
        # First, inputs that once failed, without Hypothesis.
        for fn, case in regression_cases(prop):
            out["regressions"] += 1
            msg = rerun(prop, case)
            if msg is not None:
                e = is_known(known, prop, case, msg)
                if e is None:
                    out["failure"] = {"case": case, "msg": f"{msg} (regression input {fn})"}
                    return out
        # The inputs of the findings that are known: say which of them still fail.
        for e in known:
            if e.get("case") is not None and rerun(prop, e["case"]) is not None:
                out["known"].setdefault(e["id"], {"what": e["what"], "count": 0})["count"] += 1

    done = 0
    rnd = 0
    while done < n and out["failure"] is None and not out["timed_out"]:
        m = min(ROUND, n - done)

        @hseed(derive_seed(seed, prop.ID, tier, index, rnd))
        @settings(
            max_examples=m,
            database=None,
            deadline=None,
            print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=[Phase.generate, Phase.shrink],
            report_multiple_bugs=False,
        )
        @given(strategy)
        def test(case):
            one(case)

        before = out["evaluations"]
        try:
            test()
        except _Stop:
            pass
        except (Violation, Flaky):
            pass
        if state["best"] is not None:
            out["failure"] = {"case": json.loads(state["best"][1]), "msg": state["best"][2]}
        done += m
        rnd += 1
        if out["evaluations"] == before and state["best"] is None and not out["timed_out"]:
            break
    out["wall"] = time.monotonic() - start
    return out


# Parent -------------------------------------------------------------------------------


def load(name):
    import importlib

    return importlib.import_module(f"pbt.props.{name.lower()}")


def rerun(prop, case):
    """Run a case without Hypothesis. Returns the message of the violation, if any."""
    try:
        run_case(prop, case)
    except Violation as e:
        return str(e)
    return None


def replay(name, path):
    with open(path) as f:
        rec = json.load(f)
    prop = load(name)
    msg = rerun(prop, rec["case"])
    if msg is None:
        print(f"REPLAY property={prop.ID} {path}: no violation")
        return 0
    print(f"REPLAY property={prop.ID}: {msg}")
    print(f"VIOLATION property={prop.ID} replay={path}")
    return 1


def regression_cases(prop):
    """Committed inputs that once failed (on a planted bug or before a repair)."""
    d = os.path.join(VERIF, "regressions", prop.ID)
    out = []
    if os.path.isdir(d):
        for fn in sorted(os.listdir(d)):
            if fn.endswith(".json"):
                with open(os.path.join(d, fn)) as f:
                    out.append((fn, json.load(f)["case"]))
    return out


def write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


def save_replay(prop, seed, case, msg):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.ID}.json")
    with open(path, "w") as f:
        json.dump({"property": prop.ID, "seed": seed, "msg": msg, "case": case}, f, indent=1)
        f.write("\n")
    return os.path.relpath(path, VERIF)


def main(name, tier=None, seed=None, n=None, workers=None, budget=None):
    start = time.monotonic()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")) if seed is None else seed
    prop = load(name)
    n = n or (prop.N_QUICK if tier == "quick" else prop.N_QUICK * getattr(prop, "THOROUGH_FACTOR", 20))
    workers = workers or WORKERS
    budget = budget or (240 if tier == "quick" else 3000)
    known = load_known(prop.ID)

    failure, errors = None, []
    totals = Counter()
    nontrivial = set()
    samples, tags = [], Counter()
    known_hits = {}
    timed_out = 0

    scratch = None
    if getattr(prop, "SCRATCH", False):
        scratch = tempfile.mkdtemp(prefix=f"pbt_{prop.ID}_")
        os.environ["VERIF_SCRATCH"] = scratch
    if failure is None:
        ctx = mp.get_context("fork")
        queue = ctx.Queue()
        procs = []
        for i in range(workers):
            m = n // workers + (1 if i < n % workers else 0)
            p = ctx.Process(
                target=worker, args=(name, tier, seed, i, m, budget, queue), daemon=True
            )
            p.start()
            procs.append(p)
        results = {}
        deadline = start + budget + SHRINK_SECONDS + 240
        while len(results) < len(procs):
            try:
                r = queue.get(timeout=1)
                results[r["index"]] = r
                if r.get("failure") is not None:
                    # Workers with a lower index may also find something: the report is
                    # that of the lowest index, so wait for those only.
                    if all(j in results for j in range(r["index"])):
                        break
            except Exception:
                alive = [p for p in procs if p.is_alive()]
                if not alive and queue.empty():
                    time.sleep(0.5)
                    if queue.empty():
                        break
                if time.monotonic() > deadline:
                    break
            fails = [i for i, r in results.items() if r.get("failure") is not None]
            if fails and all(j in results for j in range(min(fails))):
                break
        missing = [i for i in range(len(procs)) if i not in results]
        for p in procs:
            if p.is_alive():
                p.kill()
            p.join()
        for i in sorted(results):
            r = results[i]
            if "harness_error" in r:
                errors.append(r["harness_error"])
                continue
            totals["evaluations"] += r["evaluations"]
            totals["regressions"] += r["regressions"]
            nontrivial |= r["nontrivial"]
            tags.update(r["tags"])
            samples.extend(r["samples"])
            timed_out += r["timed_out"]
            for k, v in r["known"].items():
                known_hits.setdefault(k, {"what": v["what"], "count": 0})["count"] += v["count"]
            if r["failure"] is not None and failure is None:
                failure = r["failure"]
        if missing and failure is None and not errors:
            errors.append(f"Workers {missing} gave no result.")

    if scratch is not None:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.monotonic() - start
    ev = {
        "property": prop.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": totals["evaluations"] + totals["regressions"],
            "distinct_nontrivial": len(nontrivial),
            "rule": prop.RULE,
            "samples": [getattr(prop, "describe", lambda q: q)(s) for s in samples[:6]],
            "regression_inputs": totals["regressions"],
            "classes": dict(sorted(tags.items(), key=lambda kv: (-kv[1], kv[0]))[:400]),
            "distinct_classes": len(tags),
            "workers_out_of_time": timed_out,
            "known_finding_hits": {k: v["count"] for k, v in known_hits.items()},
        },
        "assumptions": getattr(prop, "ASSUMPTIONS", [])
        + [
            "NumPy's dense arithmetic in double precision is the reference.",
            "Values are compared up to a tolerance that scales with the magnitude of the terms.",
        ],
        "wall_s": round(wall, 2),
        "violations": 0 if failure is None else 1,
    }
    if not ev["coverage"]["samples"] and failure is not None:
        ev["coverage"]["samples"] = [failure["case"]]
    write_evidence(prop.ID, ev)

    for k, v in sorted(known_hits.items()):
        print(f"KNOWN-FINDING: property={prop.ID} {v['what']}")
    if failure is not None:
        path = save_replay(prop, seed, failure["case"], failure["msg"])
        print(f"{prop.ID}: {failure['msg']}")
        print(f"VIOLATION property={prop.ID} replay={path}")
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        print(f"{prop.ID}: the harness failed.", file=sys.stderr)
        return 2
    print(
        f"{prop.ID}: held on {ev['coverage']['evaluations']} cases "
        f"({len(nontrivial)} distinct and non-trivial) in {wall:.1f} s, seed {seed}, {tier}."
    )
    return 0
