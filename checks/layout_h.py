"""Harness: one real layout, one consumer, state changes, events, user completions and closing at any moment."""
from __future__ import annotations

import asyncio
import json

import reactpy
from reactpy import config
from reactpy.core.layout import Layout

from checks.effects_h import Monitor
from mc.app import App, Client, norm, targets
from mc.explore import Actor, Harness

OWN_ERRORS = (ValueError,)  # what programs raise on purpose


class LayoutHarness(Harness):
    """params
      prop      property being judged
      judge     list of: view, stream, effects, close, state
      program   name in PROGRAMS
      acts      one list of action strings per environment actor
      consumer  auto | gated      mode  async | serial     close  bool     debug  bool
    """

    name = "layout"

    def setup(self):
        from checks.programs import PROGRAMS
        p = self.params
        config.REACTPY_ASYNC_RENDERING.current = p.get("mode", "async") == "async"
        config.REACTPY_DEBUG.current = bool(p.get("debug", False))
        config.REACTPY_MAX_QUEUE_SIZE.current = p.get("queue", 1000)
        self.prop = p["prop"]
        self.judge = set(p.get("judge", ["view"]))
        self.client = Client()
        self.gate = None
        self.closed = self.closing = False
        self.pending = []            # futures user code waits for
        self.sent = []               # events delivered: (element id, event name)
        self.monitor = Monitor(self)
        self.app = App(self, PROGRAMS[p["program"]])
        self.layout = Layout(self.app.root())
        self.session = self.loop.create_task(self.run_session())
        for i, acts in enumerate(p.get("acts", [])):
            self.actors.append(Actor(f"a{i}", [(a, self.action(a)) for a in acts], when=self.make_when(i)))
        if p.get("consumer", "auto") == "gated":
            self.actors.append(Actor("sent", when=lambda: self.gate is not None and not self.gate.done(),
                                     repeat=lambda: self.gate.set_result(None)))
        self.actors.append(Actor("user-done", when=lambda: self.waiting(1), repeat=lambda: self.complete(0)))
        self.actors.append(Actor("user-done-newest", when=lambda: self.waiting(2), repeat=lambda: self.complete(-1)))
        if p.get("close"):
            self.actors.append(Actor("close", [("now", self.close)]))
        if p.get("close2"):
            self.actors.append(Actor("close2", [("now", lambda: self.session.cancel())],
                                     when=lambda: self.closing and not self.session.done()))

    def waiting(self, n):
        self.pending = [(k, f) for k, f in self.pending if not f.done()]
        return len(self.pending) >= n

    def complete(self, i):
        k, f = self.pending.pop(i)
        self.log(f"complete {k}")
        f.set_result(None)

    def make_when(self, i):
        def when():
            a = self.actors[i]
            if self.params.get("settled") and (self.loop.has_ready() or self.loop.next_timer() is not None or self.waiting(1)):
                return False
            return self.client.view is not None and self.possible(a.acts[a.pos][0])
        return when

    async def run_session(self):
        try:
            async with self.layout:
                while True:
                    update = await self.layout.render()
                    self.receive(update)
                    if self.params.get("consumer", "auto") == "gated":
                        self.gate = self.loop.create_future()
                        await self.gate
                        self.gate = None
        finally:
            self.closed = not self.params.get("close2")   # or else the layout may still be closing
            self.log("closed" if self.closed else "session ended")

    def receive(self, update):
        n = len(self.client.problems)
        self.client.apply(update)
        self.log(f"update {update.get('path')!r}")
        if "stream" in self.judge:
            for p in self.client.problems[n:]:
                self.fail(f"{self.prop}:{p}")
            t = [x for _, _, x in targets(self.client.view)]
            if "view" not in self.judge and len(set(t)) != len(t):
                self.fail(f"{self.prop}:two displayed handlers share the address {t}")

    def close(self):
        self.closing = True
        self.session.cancel()

    # -- actions:  "C=1" set, "C+1" functional update, "C!onClick" event on C's element; "C#k..." with key k
    @staticmethod
    def parse(a):
        for op in "=+!":
            if op in a:
                name, _, arg = a.partition(op)
                n, _, k = name.partition("#")
                return n, k or None, op, arg

    def possible(self, a):
        if ";" in a:
            return all(self.possible(x) for x in a.split(";"))
        n, k, op, arg = self.parse(a)
        i = self.app.inst(n, k)
        if i is None or i.setter is None:
            return False
        if op == "!":
            return self.find_target(i, arg) is not None
        return True

    def find_target(self, inst, ev):
        """The address of handler `ev` of the element marked with the instance id in the displayed view."""
        for path, e, t in targets(self.client.view):
            if e == ev:
                node = self.client.view
                for j in path:
                    node = node["children"][j]
                if (node.get("attributes") or {}).get("id") == f"{inst.name}{inst.key or ''}":
                    return t
        return None

    def action(self, a):
        if ";" in a:
            parts = [self.action(x) for x in a.split(";")]
            return lambda: [f() for f in parts]
        n, k, op, arg = self.parse(a)

        def do():
            if "snap" in self.judge:
                self.log(f"view {norm(self.client.view)}")
            inst = self.app.inst(n, k)
            if op == "=":
                inst.set(int(arg))
            elif op == "+":
                inst.update(lambda old, d=int(arg): old + d)
            else:
                seq = len(self.sent)
                self.sent.append((f"{inst.name}{inst.key or ''}", arg))
                self.loop.create_task(self.layout.deliver({"target": self.find_target(inst, arg), "data": [seq]}))
        return do

    def finish(self):
        live = [] if self.closing else self.app.expected_live()
        if self.closing:
            self.judge_closed()
        elif self.session.done():
            exc = self.session.exception() if not self.session.cancelled() else "cancelled"
            self.fail(f"{self.prop}:the session ended although nothing closed it: {exc!r}")
            return
        if "snap" in self.judge:
            self.log(f"view {norm(self.client.view)}")
        if "view" in self.judge and not self.closing:
            got, want = norm(self.client.view), norm(self.app.expected())
            if got != want:
                self.fail(f"{self.prop}:the client shows {got}, the current state is {want}")
        if "effects" in self.judge or "close" in self.judge:
            self.monitor.judge(live)
        if "events" in self.judge:
            self.judge_events()
        if "renders" in self.judge and not self.failures:
            self.judge_renders()
        if "state" in self.judge and not self.closing:
            for iid in live:
                i = self.app.insts[iid]
                if i.seen != i.want:
                    self.fail(f"{self.prop}:{i.name}{iid} was last rendered with state {i.seen}, its state is {i.want}")

    def judge_renders(self):
        """Every re-rendering is caused by a rendering of the component above it or by a change of its own state,
        and changes made before a rendering starts are covered by it: a rendering uses up all the changes made
        earlier than WINDOW loop turns before (a change made while the rendering is just being started may cause
        another one), or one turn's changes if they are all more recent."""
        WINDOW = 4
        count, above_at, tokens = {}, {}, {}
        for kind, iid, x, turn in self.app.hist:
            if kind == "set":
                if x:
                    tokens.setdefault(iid, {})[turn] = True
                continue
            above = x in count and above_at.get(iid) != count[x]
            if iid in count and not above:
                mine = tokens.setdefault(iid, {})
                old = [t for t in mine if t < turn - WINDOW]
                use = old or sorted(mine)[:1]
                if not use:
                    i = self.app.insts[iid]
                    self.fail(f"{self.prop}:{i.name}{iid} was rendered again although its state did not change and all earlier changes were rendered")
                for t in use:
                    del mine[t]
            count[iid] = count.get(iid, 0) + 1
            above_at[iid] = count.get(x)

    def judge_events(self):
        shown = {(n["attributes"]["id"], e) for n, e in self.displayed_handlers()}
        for k, (ident, ev) in enumerate(self.sent):
            ran = [x for x in self.app.handled if x[2] == (k,)]
            if len(ran) > 1 or any(x[:2] != (ident, ev) for x in ran):
                self.fail(f"{self.prop}:event {k} for {ev} of {ident} ran {ran}")
            if not ran and (ident, ev) in shown:
                self.fail(f"{self.prop}:event {k} for {ev} of {ident} ran nothing although the element is displayed")
        if any(len(x[2]) != 1 for x in self.app.handled):
            self.fail(f"{self.prop}:a handler ran without event: {self.app.handled}")

    def displayed_handlers(self):
        for path, e, t in targets(self.client.view):
            node = self.client.view
            for j in path:
                node = node["children"][j]
            yield node, e

    def judge_closed(self):
        if not self.session.done():
            self.fail(f"{self.prop}:closing never completed")
            return
        if not self.session.cancelled():
            exc = self.session.exception()
            if exc is not None:
                self.fail(f"{self.prop}:closing raised {exc!r}")
        left = [t for t in self.loop.tasks if not t.done()]
        if left:
            self.fail(f"{self.prop}:{len(left)} task(s) remain after closing: "
                      f"{sorted(getattr(t.get_coro(), '__qualname__', '?') for t in left)}")
        for t in self.loop.tasks:
            if t.done() and not t.cancelled() and t is not self.session:
                e = t.exception()
                if e is not None and not isinstance(e, OWN_ERRORS):
                    self.fail(f"{self.prop}:a task ended with {e!r}")
        closed = self.trace.index("closed") if "closed" in self.trace else len(self.trace)
        late = [x for x in self.trace[closed:] if x.split()[0] in ("render", "mount", "handle", "effect")]
        if late:
            self.fail(f"{self.prop}:activity after closing completed: {late}")
        try:  # setters are harmless after closing
            for i in list(self.app.insts.values()):
                if i.setter:
                    i.setter(77)
            self.loop.drain()
        except Exception as e:
            self.fail(f"{self.prop}:setting state after closing raised {e!r}")
        if [x for x in self.trace[closed:] if x.split()[0] in ("render", "mount", "handle", "effect")]:
            self.fail(f"{self.prop}:setting state after closing caused activity")

    def outcome(self):
        return hash((self._h, repr(self.client.view)))
