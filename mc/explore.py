"""Deviation-bounded exhaustive exploration of environment actions against code on an MCLoop.

A *harness* is a class; one instance is one execution:

    class H(Harness):
        def setup(self):        build the system (self.loop is running), self.actors = [Actor...]
        def finish(self):       judge the finished execution via self.fail(...)

Default schedule: run ready callbacks; when none is ready, the first enabled actor acts; when no actor is
enabled, the clock moves to the next timer.  Every other choice at a choice point is one deviation:
an actor acting although callbacks are ready, a later actor acting first, a timer firing before an actor.
All executions with at most `bound` deviations are explored.
"""
from __future__ import annotations

import gc
import hashlib
import json
import logging
import multiprocessing as mp
import os
import signal
import time
import traceback

from .loop import MCLoop


class Actor:
    """A sequence of environment actions.  `acts` = list of (label, fn) ; `when` = optional enabledness."""

    def __init__(self, name, acts=None, when=None, repeat=None, early=True):
        self.name = name
        self.acts = list(acts or [])
        self.pos = 0
        self.when = when
        self.repeat = repeat  # fn called every time it is enabled (no fixed number of actions)
        self.early = early  # may act while callbacks are ready

    def enabled(self):
        if self.repeat is None and self.pos >= len(self.acts):
            return False
        return self.when is None or bool(self.when())

    def label(self):
        return self.name if self.repeat is not None else f"{self.name}.{self.acts[self.pos][0]}"

    def act(self):
        if self.repeat is not None:
            self.pos += 1
            self.repeat()
        else:
            fn = self.acts[self.pos][1]
            self.pos += 1
            fn()


class Divergence(Exception):
    pass


class Stuck(BaseException):
    """One execution used more processor time than any terminating execution could need."""


def _on_stuck(signum, frame):
    raise Stuck()


EXECUTION_LIMIT = 30  # seconds of processor time for one execution (typically a few milliseconds)


class Harness:
    name = "?"
    horizon = 4000
    timers = True

    def __init__(self, **params):
        self.params = params
        self.trace: list[str] = []
        self.failures: list[str] = []
        self.actors: list[Actor] = []
        self._h = 0

    # -- for subclasses
    def setup(self):
        raise NotImplementedError

    def finish(self):
        pass

    def after_step(self):
        """Invariant checked after every step and action."""

    def teardown(self):
        pass

    def log(self, ev):
        self.trace.append(ev)
        self._h = hash((self._h, ev))

    def fail(self, msg):
        if msg not in self.failures:
            self.failures.append(msg)

    def outcome(self):
        return self._h


class Run:
    __slots__ = ("choices", "points", "failures", "trace", "steps", "outcome", "schedule", "horizon")


def execute(cls, params, prefix, states=None, want_trace=False):
    """Run one execution following `prefix`; returns a Run. points = list of (n_alternatives, default_cost)."""
    h = cls(**params)
    loop = MCLoop()
    h.loop = loop
    choices, points, sched = [], [], []
    steps = 0
    hit = False
    signal.signal(signal.SIGPROF, _on_stuck)
    with loop:
        try:
            signal.setitimer(signal.ITIMER_PROF, EXECUTION_LIMIT)
            h.setup()
            h.after_step()
            while True:
                ready = loop.has_ready()
                acts = [a for a in h.actors if (a.early or not ready) and a.enabled()]
                timer = h.timers and not ready and loop.next_timer() is not None
                opts = (["step"] if ready else []) + acts + (["timer"] if timer else [])
                if not opts:
                    break
                i = len(choices)
                if len(opts) > 1:
                    c = prefix[i] if i < len(prefix) else 0
                    if c >= len(opts):
                        raise Divergence(f"choice {c} of {len(opts)} at point {i}")
                    choices.append(c)
                    points.append(len(opts))
                else:
                    c = 0
                o = opts[c]
                steps += 1
                if states is not None and len(opts) > 1:
                    states.add(hash((h._h, len(loop._ready), tuple(a.pos for a in h.actors))))
                if o == "step":
                    loop.step()
                elif o == "timer":
                    if len(opts) > 1:
                        sched.append((steps, "timer"))
                    loop.advance()
                else:
                    sched.append((steps, o.label()))
                    h.log("!" + o.label())
                    o.act()
                h.after_step()
                if steps > h.horizon:
                    hit = True
                    break
            if len(choices) < len(prefix):
                raise Divergence(f"execution ended after {len(choices)} of {len(prefix)} choices")
            if hit:
                h.fail("the execution does not become quiescent (horizon reached)")
            h.finish()
        except Divergence:
            raise
        except Stuck:
            h.fail(f"{params.get('prop', h.name)}:the code under test does not terminate")
        except Exception:
            h.fail("the harness raised: " + traceback.format_exc())
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
            try:
                h.teardown()
            finally:
                loop.abandon()
    r = Run()
    r.choices, r.points, r.failures, r.steps, r.horizon = choices, points, h.failures, steps, hit
    r.trace = h.trace if (want_trace or h.failures) else None
    r.outcome = h.outcome()
    r.schedule = sched
    return r


def children(run, prefix, budget):
    """All one-more-deviation prefixes after `prefix` (default choice is 0)."""
    if budget <= 0:
        return
    for i in range(len(prefix), len(run.choices)):
        for alt in range(1, run.points[i]):
            yield run.choices[:i] + [alt]


class Stats:
    def __init__(self):
        self.executions = 0
        self.steps = 0
        self.states = set()
        self.outcomes = set()
        self.violations = []  # (cls name, params, choices, failures, schedule)
        self.capped = False
        self.diverged = 0     # schedules which could not be followed although they were observed before
        self.by_dev = {}

    def merge(self, o):
        self.executions += o.executions
        self.steps += o.steps
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.violations += o.violations
        self.capped |= o.capped
        self.diverged += o.diverged
        for k, v in o.by_dev.items():
            self.by_dev[k] = self.by_dev.get(k, 0) + v


MAXV = 3


def _account(st, cls, params, run, dev):
    st.executions += 1
    st.steps += run.steps
    st.outcomes.add(hash((cls.name, run.outcome)))
    st.by_dev[dev] = st.by_dev.get(dev, 0) + 1
    if run.failures and len(st.violations) < MAXV:
        st.violations.append((cls.name, params, run.choices, run.failures, run.schedule, run.trace))


def _subtree(args):
    cls, params, prefix, dev, bound, deadline = args
    st = Stats()
    stack = [(prefix, dev)]
    while stack:
        if time.time() > deadline:
            st.capped = True
            break
        p, d = stack.pop()
        try:
            run = execute(cls, params, p, st.states)
        except Divergence as e:
            st.diverged += 1
            print(f"# diverged: {e}", flush=True)
            continue
        _account(st, cls, params, run, d)
        if st.executions % 4 == 0:
            gc.collect(1 if st.executions % 200 == 0 else 0)
        if len(st.violations) >= MAXV:
            break
        if d < bound:
            stack.extend((q, d + 1) for q in children(run, p, bound - d))
    return st


def _quiet():
    logging.disable(logging.CRITICAL)
    gc.disable()
    import warnings
    warnings.simplefilter("ignore")


def explore_many(jobs, deadline, procs=8):
    """jobs: list of (cls, params, bound).  Returns {(name, key): Stats} plus a total Stats."""
    _quiet()
    total = Stats()
    per = {}
    work = []
    for cls, params, bound in jobs:
        st = Stats()
        key = (cls.name, json.dumps(params, sort_keys=True, default=str))
        a = execute(cls, params, [], st.states, want_trace=True)
        b = execute(cls, params, [], None, want_trace=True)
        if a.trace != b.trace or a.choices != b.choices or a.steps != b.steps:
            st.diverged += 1
            print(f"# diverged: replaying the default schedule of {key} gave a different execution", flush=True)
        _account(st, cls, params, a, 0)
        per[key] = st
        if a.failures:
            continue
        if bound > 0:
            for q in children(a, [], bound):
                work.append((key, (cls, params, q, 1, bound, deadline)))
    gc.collect()
    gc.freeze()
    if work:
        with mp.get_context("fork").Pool(procs, initializer=_quiet) as pool:
            for (key, _), st in zip(work, pool.imap(_subtree, [w[1] for w in work], chunksize=4)):
                per[key].merge(st)
                if len(per[key].violations) > MAXV:
                    pool.terminate()
                    break
    for st in per.values():
        total.merge(st)
    return total, per


def minimise(cls, params, choices, failures):
    """Replay a violation; an execution that was observed to fail but does not always fail is kept as observed."""
    best = None
    for _ in range(4):
        try:
            r = execute(cls, params, choices, None, True)
        except Divergence:
            continue
        if r.failures:
            return r
        best = r
    print(f"# the violation did not show again on replay: {failures}", flush=True)
    if best is None:
        best = Run()
        best.choices, best.schedule, best.trace = choices, [], []
    best.failures = failures
    return best
