"""Harness: run generated cases through oracles, count, shrink, report

A property consists of sub-checks. A sub-check has a Hypothesis strategy that yields a
plain JSON case and an oracle function run(case, rec) that raises Violation if the case
breaks the property and returns truthy if the case was non-trivial.
"""
import hashlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter

from boot import REPO, VERIF

SHRINK_SECONDS = 40
QUICK_FACTOR = 2  # cases of the quick tier relative to the numbers in the property modules
QUICK_SECONDS = 480  # on a slow machine the search ends early; reached nowhere so far
CASE_SECONDS = 240  # far above the cost of any case: a case that takes longer hangs
FAST = bool(os.environ.get("VF_FAST"))  # stop at the first failure, for sweeps over mutants


class Violation(Exception):
    """The code under test breaks the property for this case"""


class Known(Exception):
    """The case fails in exactly the way of the known finding `key`"""

    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


class OutOfTime(BaseException):
    """The time for the search is used up"""


class Hang(BaseException):
    """A case did not end"""


def _alarm(signum, frame):
    raise Hang("no result within the time limit")


class Rec:
    """Collects labels of a case"""

    def __init__(self):
        self.labels = []
        self.known = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


class Sub:
    def __init__(self, name, strategy, run, quick, thorough, rule, shards=1,
                 seconds=CASE_SECONDS):
        self.seconds = seconds
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough
        self.rule = rule
        self.shards = shards


class Property:
    """Collection of sub-checks; use as decorator factory in the property modules"""

    def __init__(self, pid, assumptions=()):
        self.pid = pid
        self.subs = []
        self.assumptions = list(assumptions)

    def sub(self, name, strategy, quick, thorough=None, rule="", shards=1,
            seconds=CASE_SECONDS):
        def deco(func):
            self.subs.append(
                Sub(name, strategy, func, quick, quick * 20 if thorough is None else thorough,
                    rule, shards, seconds)
            )
            return func

        return deco


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def through_repo(exc):
    """True if the exception was raised while code of /repo was executing

    The traceback has to pass through the code under test: errors of the harness itself
    are never violations."""
    prefix = os.path.join(REPO, "")
    tb = exc.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(prefix):
            return True
        tb = tb.tb_next
    return False


def canonical(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def execute(sub, case, rec):
    """Run one case, map exceptions of the code under test to violations"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(sub.seconds)
    try:
        return sub.run(case, rec)
    except (Violation, Known):
        raise
    except Hang as e:
        if through_repo(e):
            lines = traceback.format_exception(type(e), e, e.__traceback__)
            v = Violation(f"code does not end: {e}\n" + "".join(lines[-6:]))
            v.hang = True
            raise v from e
        raise
    except Exception as e:
        if through_repo(e):
            lines = traceback.format_exception(type(e), e, e.__traceback__)
            raise Violation(
                f"code raised {type(e).__name__}: {e}\n" + "".join(lines[-6:])
            ) from e
        raise
    finally:
        signal.alarm(0)


def run_sub(pid, sub, seed, n, shard, until=None):
    """Search one sub-check, returns a JSON-able result"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    st = {
        "evaluations": 0,
        "hashes": set(),
        "labels": Counter(),
        "samples": [],
        "fail": None,
        "first_fail": None,
        "known": {},
    }

    def body(case):
        if st["first_fail"] and time.monotonic() - st["first_fail"] > SHRINK_SECONDS:
            return  # stop shrinking, the best case so far is kept
        if until and not st["first_fail"] and time.monotonic() > until:
            raise OutOfTime()
        js = canonical(case)
        rec = Rec()
        st["evaluations"] += 1
        started = time.monotonic()
        try:
            nontrivial = execute(sub, case, rec)
        except Known as e:
            st["known"].setdefault(e.key, str(e))
            nontrivial = True
        except Violation as e:
            st["fail"] = (json.loads(js), str(e))
            st["first_fail"] = st["first_fail"] or time.monotonic()
            if getattr(e, "hang", False) or time.monotonic() - started > SHRINK_SECONDS / 2:
                st["first_fail"] -= 10 * SHRINK_SECONDS
            raise
        st["labels"].update(set(rec.labels))
        if nontrivial:
            h = hashlib.blake2b(js.encode(), digest_size=8).digest()
            if h not in st["hashes"]:
                st["hashes"].add(h)
                k = len(st["hashes"])
                if k in (1, 7, 50) and len(js) < 6000:
                    st["samples"].append(json.loads(js))

    mixed = int.from_bytes(
        hashlib.blake2b(f"{pid}/{sub.name}/{shard}/{seed}".encode(), digest_size=6).digest(),
        "big",
    )
    test = hypothesis.seed(mixed)(
        settings(
            max_examples=n,
            database=None,
            deadline=None,
            derandomize=False,
            print_blob=False,
            report_multiple_bugs=False,
            suppress_health_check=[
                HealthCheck.too_slow,
                HealthCheck.data_too_large,
                HealthCheck.large_base_example,
            ],
            phases=(Phase.explicit, Phase.generate, Phase.target)
            + (() if FAST else (Phase.shrink,)),
        )(given(sub.strategy)(body))
    )
    error = None
    try:
        test()
    except (Violation, OutOfTime):
        pass
    except BaseException as e:  # Flaky etc: only an error if there was no violation
        if st["fail"] is None:
            error = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    return {
        "sub": sub.name,
        "shard": shard,
        "rule": sub.rule,
        "evaluations": st["evaluations"],
        "hashes": [h.hex() for h in st["hashes"]],
        "labels": dict(st["labels"]),
        "samples": st["samples"],
        "fail": st["fail"],
        "known": st["known"],
        "error": error,
    }


# --- scratch space -------------------------------------------------------------------

_SCRATCH = None


def scratch_root():
    """Scratch directory of this process, removed by the parent"""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get("VF_SCRATCH")
        _SCRATCH = (os.getpid(), tempfile.mkdtemp(prefix="w", dir=base))
    return _SCRATCH[1]


_COUNTER = [0]


class ScratchDir:
    """Fresh directory that is removed afterwards"""

    def __enter__(self):
        _COUNTER[0] += 1
        self.path = os.path.join(scratch_root(), f"d{_COUNTER[0]}")
        os.mkdir(self.path)
        return self.path

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)


# --- parallel driver -----------------------------------------------------------------


def _child(pid, sub, seed, n, shard, out, until):
    devnull = open(os.devnull, "w")
    sys.stdout = devnull
    import logging

    logging.disable(logging.CRITICAL)
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    try:
        res = run_sub(pid, sub, seed, n, shard, until)
    except BaseException as e:
        res = {"sub": sub.name, "shard": shard, "error": "".join(
            traceback.format_exception(type(e), e, e.__traceback__)), "fail": None,
            "evaluations": 0, "hashes": [], "labels": {}, "samples": [], "known": {},
            "rule": sub.rule}
    tmp = out + ".tmp"
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, out)


def run_all(prop, seed, tier, jobs, scale=1.0, only=None):
    """Run all sub-checks (and shards) of a property in parallel processes"""
    todo = []
    until = time.monotonic() + QUICK_SECONDS if tier == "quick" else None
    for sub in prop.subs:
        if only and sub.name not in only:
            continue
        total = sub.quick if tier == "quick" else sub.thorough
        if total == 0:
            continue
        if tier == "quick" and total > 1:
            total *= QUICK_FACTOR
        total = max(1, int(total * scale))
        shards = sub.shards * QUICK_FACTOR if tier == "quick" else max(sub.shards, min(8, total // 50 or 1))
        shards = max(1, min(shards, total))
        for s in range(shards):
            todo.append((sub, s, (total + shards - 1) // shards))
    todo.sort(key=lambda t: -t[0].seconds)  # long cases first
    base = tempfile.mkdtemp(prefix="vf-")
    os.environ["VF_SCRATCH"] = base
    running = {}
    results = []
    try:
        queue = list(enumerate(todo))
        while queue or running:
            while queue and len(running) < jobs:
                idx, (sub, shard, n) = queue.pop(0)
                out = os.path.join(base, f"res{idx}.json")
                sys.stdout.flush()
                sys.stderr.flush()
                p = os.fork()
                if p == 0:
                    code = 0
                    try:
                        _child(prop.pid, sub, seed, n, shard, out, until)
                    except BaseException:
                        traceback.print_exc()
                        code = 3
                    finally:
                        os._exit(code)
                running[p] = (sub, shard, out)
            p, status = os.wait()
            if p not in running:
                continue
            sub, shard, out = running.pop(p)
            if os.path.exists(out):
                with open(out) as f:
                    results.append(json.load(f))
                if FAST and results[-1]["fail"]:
                    queue = []
                    for q in running:
                        os.kill(q, 9)
                        os.waitpid(q, 0)
                    running = {}
            else:
                results.append({"sub": sub.name, "shard": shard, "fail": None,
                    "error": f"worker ended with status {status}", "evaluations": 0,
                    "hashes": [], "labels": {}, "samples": [], "known": {},
                    "rule": sub.rule})
    finally:
        shutil.rmtree(base, ignore_errors=True)
    results.sort(key=lambda r: (r["sub"], r["shard"]))
    return results
