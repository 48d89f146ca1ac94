"""Exhaustive evaluation of a finite, fully enumerated space of cases (operation histories, inputs, schedules).

    run(prop, groups, deadline)   groups: list of (name, cases, judge)

`cases` is a list or a zero-argument generator function; `judge(case)` returns a Result.  Work is split over
forked processes by position, so that every case is evaluated exactly once.
"""
from __future__ import annotations

import gc
import itertools
import json
import multiprocessing as mp
import os
import signal
import time
import traceback

from . import explore


class Result:
    """failures: messages; states: hashes of the states passed through; transitions: operations performed."""
    __slots__ = ("failures", "states", "transitions", "outcome", "known", "runs")

    def __init__(self, failures=(), states=(), transitions=1, outcome=0, known=()):
        self.failures, self.states, self.transitions, self.outcome = list(failures), states, transitions, outcome
        self.runs = 1  # executions of the implementation
        self.known = list(known)  # (identifier, text) of known findings that were observed


class Totals:
    def __init__(self):
        self.cases = 0
        self.runs = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []
        self.capped = False
        self.samples = []
        self.known = {}

    def merge(self, o):
        self.cases += o.cases
        self.runs += o.runs
        self.transitions += o.transitions
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.violations += o.violations
        self.capped |= o.capped
        self.known.update(o.known)
        self.samples += o.samples


CASE_LIMIT = 20
MAXV = 3
_groups = []


def _iter(cases):
    return cases() if callable(cases) else iter(cases)


_before = []  # the shares that this process has worked on


def _work(args):
    gi, k, n, deadline = args
    before = list(_before)
    _before.append((gi, k, n, 0))
    name, cases, judge = _groups[gi]
    t = Totals()
    signal.signal(signal.SIGPROF, explore._on_stuck)
    for i, case in enumerate(itertools.islice(_iter(cases), k, None, n)):
        if time.time() > deadline:
            t.capped = True
            break
        try:
            signal.setitimer(signal.ITIMER_PROF, CASE_LIMIT)
            try:
                r = judge(case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except explore.Stuck:
            r = Result(["the code under test does not terminate"])
        except Exception:
            r = Result(["unexpected exception: " + traceback.format_exc()])
        t.cases += 1
        t.runs += r.runs
        t.transitions += r.transitions
        t.states.update(r.states)
        t.outcomes.add(r.outcome)
        t.known.update(r.known)
        if i < 1 and k < 2:
            t.samples.append({"group": name, "case": repr(case)[:600]})
        if r.failures:
            t.violations.append((name, case, r.failures, [*before, (gi, k, n, i + 1)]))
            if len(t.violations) >= MAXV:
                break
        _before[-1] = (gi, k, n, i + 1)
        if i % 16 == 15:
            gc.collect(1 if i % 800 == 799 else 0)
    return gi, t


def run(groups, deadline, procs=8):
    global _groups
    _groups = groups
    explore._quiet()
    per = [Totals() for _ in groups]
    work = [(gi, k, procs * 2, deadline) for gi in range(len(groups)) for k in range(procs * 2)]
    gc.collect()
    gc.freeze()
    with mp.get_context("fork").Pool(procs, initializer=explore._quiet) as pool:
        for gi, t in pool.imap(_work, work):
            per[gi].merge(t)
    total = Totals()
    for t in per:
        total.merge(t)
    return total, per


def finish(chk, groups, total, per, rule, bound, assumptions=()):
    """Fill in the evidence of `chk` (mc.report.Check) and report violations."""
    chk.set(states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.runs,
            distinct_outcomes=len(total.outcomes), rule=rule, bound=bound, exhaustive=not total.capped,
            capped=total.capped, groups={g[0]: t.cases for g, t in zip(groups, per)})
    for s in total.samples[:: max(1, len(total.samples) // 8)]:
        chk.sample(s)
    chk.assumptions = list(assumptions) + ["inputs and histories beyond the stated bounds are not covered"]
    for ident, text in sorted(total.known.items()):
        chk.known(ident, text)
    report_violations(chk, groups, total)


def report_violations(chk, groups, total):
    judges = {g[0]: g[2] for g in groups}
    for name, case, failures, shares in total.violations[:5]:
        if not any("terminate" in f for f in failures) and not _fails(lambda: [judges[name](case)]) \
                and not _fails(lambda: _after_others(groups, name, shares)):
            raise explore.Divergence(f"violation does not replay: {name} {case!r} {failures}")
        chk.violation(f"{name}: {failures[0]} | case {case!r}"[:1500],
                      {"group": name, "case": repr(case), "failures": failures})


def _fails(results):
    """Whether one of the results is a failure, which a fresh process finds out."""
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            code = 0 if any(r.failures for r in results()) else 1
        except Exception:
            code = 0
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1] == 0


def _after_others(groups, name, shares):
    """Everything that one process has judged, up to a violation."""
    for gi, k, n, count in shares:
        gname, cases, judge = groups[gi]
        for case in itertools.islice(_iter(cases), k, k + n * count, n):
            r = judge(case)
            if gname == name:
                yield r


def words(alphabet, lo, hi):
    """All sequences over `alphabet` with lo..hi elements, shortest first."""
    for n in range(lo, hi + 1):
        yield from itertools.product(alphabet, repeat=n)
