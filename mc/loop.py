"""A controlled asyncio event loop: virtual clock, FIFO ready queue, no I/O, one step at a time.

asyncio guarantees that ready callbacks run in FIFO order, so the only nondeterminism a program on
one loop can observe is *when* its environment acts (network input, user code completing, timers).
The driver therefore runs the loop one callback at a time and may act between any two callbacks.
"""
from __future__ import annotations

import asyncio
import heapq
import itertools
import sys
from asyncio import events


class OrderedSet(dict):
    """A set which iterates in insertion order, whatever the addresses of its items are."""

    def add(self, item):
        self[item] = None

    def remove(self, item):
        del self[item]

    def discard(self, item):
        self.pop(item, None)


def make_anyio_deterministic():
    """Cancel scopes nested in each other are kept in sets, whose order would depend on memory addresses."""
    from anyio._backends import _asyncio
    init = _asyncio.CancelScope.__init__

    def wrapper(self, *a, **kw):
        init(self, *a, **kw)
        if isinstance(self._child_scopes, set) and not self._child_scopes:
            self._child_scopes = OrderedSet()
    if not getattr(init, "_mc", False):
        wrapper._mc = True
        _asyncio.CancelScope.__init__ = wrapper


make_anyio_deterministic()


class MCTask(asyncio.Task):
    """A task whose hash does not depend on its memory address (sets of tasks become deterministic)."""

    _counter = itertools.count()

    def __hash__(self):
        try:
            return self._mc_id
        except AttributeError:
            self._mc_id = next(MCTask._counter)
            return self._mc_id

    def __eq__(self, other):
        return self is other


class MCLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._now = 1000.0
        self.problems: list[str] = []
        self._clock_resolution = 1e-9
        MCTask._counter = itertools.count()
        self.tasks: list[asyncio.Task] = []
        self.set_task_factory(self._factory)
        self.set_exception_handler(self._on_problem)

    def _factory(self, loop, coro, **kw):
        t = MCTask(coro, loop=loop, **kw)
        self.tasks.append(t)
        return t

    def _on_problem(self, loop, context):
        exc = context.get("exception")
        self.problems.append(f"{context.get('message')}: {exc!r}")

    # --- what BaseEventLoop expects of a concrete loop
    def time(self):
        return self._now

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def run_in_executor(self, executor, func, *args):
        """Work handed to a thread is done in one later step of the loop."""
        fut = self.create_future()

        def work():
            if fut.cancelled():
                return
            try:
                fut.set_result(func(*args))
            except Exception as e:
                fut.set_exception(e)
        self.call_soon(work)
        return fut

    # --- stepping
    def has_ready(self):
        while self._ready and self._ready[0]._cancelled:
            self._ready.popleft()
        return bool(self._ready)

    turn = 0

    def step(self):
        self.turn += 1
        h = self._ready.popleft()
        if not h._cancelled:
            h._run()

    def next_timer(self):
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
        return self._scheduled[0]._when if self._scheduled else None

    def advance(self):
        """Move the clock to the next timer and make everything due then ready (in due order)."""
        when = self.next_timer()
        assert when is not None
        if when > self._now:
            self._now = when
        while self._scheduled and self._scheduled[0]._when <= self._now:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            if not h._cancelled:
                self._ready.append(h)

    def __enter__(self):
        self._prev = events._get_running_loop()
        events._set_running_loop(None)
        events._set_running_loop(self)
        return self

    def __exit__(self, *a):
        events._set_running_loop(None)
        if self._prev is not None:
            events._set_running_loop(self._prev)

    def drain(self, limit=100000):
        """Run without any environment action until nothing is left to do (timers included)."""
        n = 0
        while True:
            if self.has_ready():
                self.step()
            elif self.next_timer() is not None:
                self.advance()
            else:
                return n
            n += 1
            if n > limit:
                raise RuntimeError("event loop does not become quiescent")

    def run_ready(self, limit=100000):
        """Run until no callback is ready (the clock does not move)."""
        n = 0
        while self.has_ready():
            self.step()
            n += 1
            if n > limit:
                raise RuntimeError("event loop does not become quiescent")
        return n

    def abandon(self):
        """Silence everything left over after an execution has been judged."""
        self.set_exception_handler(lambda l, c: None)
        for t in self.tasks:
            t._log_destroy_pending = False
            if t.done() and not t.cancelled():
                t.exception()
        for t in self.tasks:
            if not t.done():
                try:
                    t.get_coro().close()
                except BaseException:
                    pass
        self._ready.clear()
        self._scheduled.clear()
        self._closed = True
        # garbage of earlier executions would slow down (not change) later ones
        asyncio.tasks._scheduled_tasks.data.clear()
        backend = sys.modules.get("anyio._backends._asyncio")
        if backend is not None:
            backend._task_states.data.clear()
