"""
Core of the property-based testing harness: what a property module consists of, how one generated case is judged,
and how a worker process drives Hypothesis over it.

A property module /verif/props/<ID>.py defines
  RULE     text: how cases are made and what makes one non-trivial
  SUBS     list of Sub
  setup()  optional, called once per worker before anything else (imports of the code under test)

A Sub has a Hypothesis strategy which yields a *JSON-serialisable* case, and a check(case) function.
The check is a pure function of the case and the code under test, so that a saved case is a complete replay file
(the library is not needed to replay it).
"""

from __future__ import annotations
import hashlib
import json
import os
import sys
import time
import traceback
from typing import Any, Callable, Dict, List, Optional

_VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property is broken, for the current case."""


class HarnessError(Exception):
    """The harness itself is broken (never reported as violation)."""


def require(cond, msg="property does not hold"):
    """
    :param cond:
    :param str|Callable[[],str] msg:
    """
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


class Sub:
    """One generated check of a property."""

    def __init__(
        self,
        name: str,
        strategy: Callable[[], Any],
        check: Callable[[Any], Optional[List[str]]],
        *,
        quick: int,
        thorough: int,
        nontrivial: Optional[Callable[[Any], bool]] = None,
    ):
        """
        :param name:
        :param strategy: function returning a Hypothesis strategy
        :param check: raises on violation. can return a list of labels for the case classification
        :param quick: number of cases over all workers, quick tier
        :param thorough: same for the thorough tier
        :param nontrivial: predicate on the case
        """
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough
        self.nontrivial = nontrivial or (lambda case: True)


def load_prop(pid: str):
    """
    :param pid:
    :return: module
    """
    import importlib

    sys.path.insert(0, _VERIF)
    return importlib.import_module("props." + pid)


def case_key(case) -> str:
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=str).encode("utf8")).hexdigest()[:16]


def classify_exception(exc: BaseException) -> str:
    """
    :return: "violation" or "harness"
    An exception which comes out of the code under test on a valid input is a violation,
    an assertion of the check is a violation,
    an environment problem (imports, I/O, memory) without any frame of the code under test is a harness error.
    """
    if isinstance(exc, Violation):
        return "violation"
    if isinstance(exc, HarnessError):
        return "harness"
    if isinstance(exc, (MemoryError, KeyboardInterrupt, SystemExit)):
        return "harness"
    seen = set()
    todo = [exc]
    while todo:
        e = todo.pop()
        if e is None or id(e) in seen:
            continue
        seen.add(id(e))
        for frame, _ in traceback.walk_tb(e.__traceback__):
            fn = os.path.realpath(frame.f_code.co_filename)
            if fn.startswith(REPO + os.sep):
                return "violation"
        todo += [e.__cause__, e.__context__]
    if isinstance(exc, (ImportError, OSError, NameError, SyntaxError)):
        return "harness"
    # The check fell over what it got from the code under test (e.g. None instead of an array).
    # The same check function runs clean on all the generated cases on the unchanged tree.
    return "violation"


class _Stop(BaseException):
    pass


class WorkerStats:
    """Counters for the evidence."""

    def __init__(self):
        self.evaluations = 0
        self.nontrivial_keys = set()
        self.labels: Dict[str, int] = {}
        self.samples: Dict[str, list] = {}
        self.per_sub: Dict[str, int] = {}
        self.skipped_by_deadline = 0
        self.times: Dict[str, float] = {}

    def to_json(self):
        return {
            "evaluations": self.evaluations,
            "nontrivial_keys": sorted(self.nontrivial_keys),
            "labels": self.labels,
            "samples": self.samples,
            "per_sub": self.per_sub,
            "skipped_by_deadline": self.skipped_by_deadline,
            "times": {k: round(v, 2) for k, v in self.times.items()},
        }


def run_case(sub: Sub, case, stats: Optional[WorkerStats] = None):
    """run one case; raises on failure"""
    # The case has to survive a JSON round trip, because that is what the replay file has.
    case = json.loads(json.dumps(case))
    t = time.time()
    labels = sub.check(case)
    if stats is not None:
        stats.times[sub.name] = stats.times.get(sub.name, 0.0) + time.time() - t
        stats.evaluations += 1
        stats.per_sub[sub.name] = stats.per_sub.get(sub.name, 0) + 1
        if sub.nontrivial(case):
            stats.nontrivial_keys.add(sub.name + ":" + case_key(case))
            smp = stats.samples.setdefault(sub.name, [])
            if len(smp) < 2 and (stats.per_sub[sub.name] % 7 == 3 or stats.per_sub[sub.name] <= 1):
                smp.append(case)
        for lab in labels or ():
            lab = sub.name + ":" + lab
            stats.labels[lab] = stats.labels.get(lab, 0) + 1


def run_sub_generated(sub: Sub, *, num: int, seed: int, stats: WorkerStats, deadline: float, shrink_time: float):
    """
    :return: None or dict(case, error, kind)
    """
    import hypothesis
    from hypothesis import settings, HealthCheck, Phase

    state = {"first_fail": None, "best": None}

    @hypothesis.seed(seed)
    @settings(
        max_examples=max(num, 1),
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
    )
    @hypothesis.given(sub.strategy())
    def _test(case):
        now = time.time()
        if state["first_fail"] is not None:
            if now - state["first_fail"] > shrink_time:
                return  # stop shrinking
        elif now > deadline:
            stats.skipped_by_deadline += 1
            return
        try:
            run_case(sub, case, stats if state["first_fail"] is None else None)
        except BaseException as exc:  # noqa
            if isinstance(exc, (KeyboardInterrupt, SystemExit)) and not _has_repo_frame(exc):
                raise
            if type(exc).__module__.startswith("hypothesis"):
                raise
            kind = classify_exception(exc)
            if state["first_fail"] is None:
                state["first_fail"] = now
            err = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))
            size = len(json.dumps(case))
            best = state["best"]
            if best is None or (kind == "violation" and best["kind"] == "harness") or (
                kind == best["kind"]
            ):
                state["best"] = {
                    "sub": sub.name,
                    "case": json.loads(json.dumps(case)),
                    "error": err[-6000:],
                    "msg": str(exc)[:800],
                    "kind": kind,
                    "size": size,
                }
            raise Violation("case failed") from None

    try:
        _test()
    except BaseException as exc:  # noqa
        if state["best"] is None:
            raise
    return state["best"]


def _has_repo_frame(exc):
    return any(
        os.path.realpath(fr.f_code.co_filename).startswith(REPO + os.sep) for fr, _ in traceback.walk_tb(exc.__traceback__)
    )


def setup_paths():
    """sys.path for the code under test (/repo) and the vendored Hypothesis"""
    for p in (os.path.join(_VERIF, "vendor"), _VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, os.path.join(_VERIF, "vendor"))
    sys.path.insert(0, _VERIF)
    sys.path.insert(0, REPO)
    import returnn

    if not os.path.realpath(returnn.__file__).startswith(REPO + os.sep):
        raise HarnessError("returnn imported from %s" % returnn.__file__)
