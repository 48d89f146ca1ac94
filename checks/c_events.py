"""C06 (routing, histories), C07 (order and isolation, schedules), C14 (acknowledgements, schedules)."""
from __future__ import annotations

import asyncio
import itertools
import json
import os
import sys
import time

from reactpy import component, config, html
from reactpy.core.events import EventHandler, event
from reactpy.core.hooks import use_state
from reactpy.core.layout import Layout
from reactpy.core.serve import serve_layout
from reactpy.core.vdom import Vdom

from checks.c_layout import report, report_violations
from checks.layout_h import LayoutHarness
from mc import explore, space
from mc.app import Client, targets
from mc.explore import Actor, Harness
from mc.loop import MCLoop
from mc.report import Check, tier


# ---------------------------------------------------------------- C06: histories of views
# A view is a list of items below one parent.  Every element with a handler carries the token of the rendering
# which made it, so that what runs can be compared with what is displayed.
class Router:
    def __init__(self):
        self.ran = []
        self.token = 0

    def handler(self, ident, ev, token):
        def run(*data):
            self.ran.append((ident, ev, token, list(data)))
        return run

    def button(self, ident, token, events=("onClick",), key=None, target=None, tag="button"):
        a = {"id": ident, "data-t": token}
        if key is not None:
            a["key"] = key
        for ev in events:
            f = self.handler(ident, ev, token)
            if target:
                f = EventHandler(lambda data, f=f: f(*data), target=target)
            a[ev] = f
        return Vdom(tag)(a)


def make_items(r):
    @component
    def C(ident, inner):
        r.token += 1
        b = r.button(f"{ident}.b", r.token, key=inner)
        return html.div(b, html.i({"key": "z"}))

    @component
    def W(ident):
        return C(ident, None)

    return {
        "b": lambda i, t: r.button(f"{i}b", t),
        "1": lambda i, t: r.button(f"{i}1", t, key="1"),
        "0": lambda i, t: r.button(f"{i}0", t, key="0"),
        "i1": lambda i, t: r.button(f"{i}i1", t, key=1),
        "a": lambda i, t: r.button(f"{i}a", t, key="a"),
        "a/b": lambda i, t: r.button(f"{i}ab", t, key="a/b"),
        "a:": lambda i, t: r.button(f"{i}a:", t, ("onB:onClick", "onClick"), key="a:onB"),
        "div": lambda i, t: html.div({"key": "a"}, r.button(f"{i}db", t, key="b")),
        "divu": lambda i, t: html.div(r.button(f"{i}dub", t), r.button(f"{i}dub1", t, ("onKeyDown",))),
        "key": lambda i, t: r.button(f"{i}key", t, ("onKeyDown",)),
        "both": lambda i, t: r.button(f"{i}both", t, ("onKeyDown", "onClick"), key="k"),
        "none": lambda i, t: r.button(f"{i}none", t, (), key="k"),
        "T": lambda i, t: r.button(f"{i}T", t, target="T"),
        "T2": lambda i, t: html.div({"key": "t"}, r.button(f"{i}T2", t, ("onKeyDown",), target="T")),
        "C": lambda i, t: C(f"{i}C", None),
        "Ca": lambda i, t: C(f"{i}Ca", "b", key="a"),
        "W": lambda i, t: W(f"{i}W", key="w"),
        "txt": lambda i, t: "text",
        "nil": lambda i, t: None,
    }



ITEMS = ["b", "1", "0", "i1", "a", "a/b", "a:", "div", "divu", "key", "both", "none", "T", "T2", "C", "Ca", "W", "txt", "nil"]


def shapes(n, items=ITEMS):
    for s in space.words(items, 0, n):
        if sum(x in ("T", "T2") for x in s) < 2:
            yield s


def judge_c06(case):
    mode, history = case
    config.REACTPY_ASYNC_RENDERING.current = mode == "async"
    config.REACTPY_DEBUG.current = False
    config.REACTPY_MAX_QUEUE_SIZE.current = 1000
    r = Router()
    items = make_items(r)
    loop = MCLoop()
    failures, states, n = [], [], 0
    with loop:
        box = {}

        @component
        def Root():
            s, box["set"] = use_state(0)
            r.token += 1
            t = r.token
            return html.div([items[x](f"{s}.{i}.", t) for i, x in enumerate(history[s])])

        client = Client()
        layout = Layout(Root())

        async def session():
            async with layout:
                while True:
                    client.apply(await layout.render())

        task = loop.create_task(session())
        seen = set()

        def deliver(target):
            r.ran.clear()
            loop.create_task(layout.deliver({"type": "layout-event", "target": target, "data": [{"n": n}, "x", 3]}))
            loop.drain()
            return list(r.ran)

        for s in range(len(history)):
            if s:
                box["set"](s)
            loop.drain()
            n += 1
            shown = {}
            states.append(hash((mode, history[s], repr(client.view))))
            for path, ev, target in targets(client.view):
                node = client.view
                for j in path:
                    node = node["children"][j]
                if target in shown:
                    failures.append(f"{node['attributes']['id']} and {shown[target][0]} share the address {target!r}")
                shown[target] = (node["attributes"]["id"], ev, node["attributes"]["data-t"])
            if failures:
                break
            for target, want in shown.items():
                n += 1
                got = deliver(target)
                if [g[:3] for g in got] != [want]:
                    failures.append(f"an event for {want} at {target!r} ran {got}")
                elif not (len(got[0][3]) == 3 and dict(got[0][3][0]) == {"n": n} and got[0][3][1:] == ["x", 3]):
                    failures.append(f"the handler of {want} received {got[0][3]}")
            for target in sorted((seen | {"", "T", "nowhere:onClick"}) - set(shown)):
                n += 1
                got = deliver(target)
                if got:
                    failures.append(f"an event for {target!r}, which is not displayed, ran {got}")
            seen |= set(shown)
            if failures:
                break
        if task.done():
            failures.append(f"the session ended: {task}")
        loop.abandon()
    return space.Result(failures, states, n, hash(repr(client.view)))


# ---------------------------------------------------------------- C07, C14: schedules
class EventHarness(Harness):
    """params: handlers = {"name": [kind per call ...]}, deliveries = [[(name, seq?) ...] per actor], queue, mode, sets"""

    name = "events"

    def setup(self):
        p = self.params
        config.REACTPY_ASYNC_RENDERING.current = p.get("mode", "async") == "async"
        config.REACTPY_DEBUG.current = p.get("debug", False)
        config.REACTPY_MAX_QUEUE_SIZE.current = p.get("queue", 1000)
        self.prop = p["prop"]
        self.pending = []
        self.delivered = {}   # name -> ids in order of delivery
        self.started = {}     # name -> ids in order of start
        self.ended = {}
        self.running = {}     # name -> id
        self.taken = {}       # (name) -> max seq
        self.sent = {}
        self.unhandled = []   # [name, seq, id, whether it certainly reached the layout], in order of delivery
        self.arrived = []     # (name, seq) in order of delivery
        self.snap = {}        # token -> copies of taken and unhandled
        self.token = 0
        self.count = 0
        self.shown_acks = {}
        self.client = Client()
        h = self

        def make(name, kinds):
            def pick(i):
                return kinds[min(i, len(kinds) - 1)]

            async def run(ident, seq):
                i = len(h.started.setdefault(name, []))
                h.begin(name, ident, seq)
                kind = pick(i)
                try:
                    await h.behave(kind, name, ident)
                finally:
                    h.end(name, ident)

            if all(k in ("fast", "raise", "set") for k in kinds):
                def plain(ident, seq):
                    i = len(h.started.setdefault(name, []))
                    h.begin(name, ident, seq)
                    try:
                        h.instant(pick(i), name)
                    finally:
                        h.end(name, ident)
                return plain
            return run

        self.setters = {}

        self.kept = {}       # elements which are made only once

        @component
        def Root():
            s, self.setters["R"] = use_state(0)
            h.token += 1
            h.snap[h.token] = dict(h.taken), [w[:] for w in h.unhandled]
            h.log(f"render {s}")
            kids = []
            for el in p["elements"]:
                if s in el.get("absent", ()):
                    continue
                if el["id"] in h.kept:
                    kids.append(h.kept[el["id"]])
                    continue
                a = {"id": el["id"], "key": el["id"]}
                if el.get("value"):
                    a["value"] = str(s)
                for ev, name in el["on"].items():
                    if isinstance(name, list):
                        name = name[s % len(name)]
                    if name is None:
                        continue
                    f = make(name, p["handlers"][name])
                    a[ev] = event(f) if el.get("event", True) else f
                kids.append(Vdom(el.get("tag", "button"))(a))
                if el.get("kept"):
                    h.kept[el["id"]] = kids[-1]
            return html.div({"data-t": h.token}, kids)

        self.inbox, self.wake = [], self.loop.create_future()
        self.layout = Layout(Root())
        self.session = self.loop.create_task(self.run_session())
        for i, acts in enumerate(p["deliveries"]):
            self.actors.append(Actor(f"d{i}", [(json.dumps(a), lambda a=a: self.act(a)) for a in acts],
                                     when=lambda: self.client.view is not None))
        self.actors.append(Actor("user-done", when=lambda: self.waiting(1), repeat=lambda: self.complete(0)))
        self.actors.append(Actor("user-done-newest", when=lambda: self.waiting(2), repeat=lambda: self.complete(-1)))

    def waiting(self, n):
        self.pending = [f for f in self.pending if not f[1].done()]
        return len(self.pending) >= n

    def complete(self, i):
        k, f = self.pending.pop(i)
        self.log(f"complete {k}")
        f.set_result(None)

    async def run_session(self):
        if self.params.get("serve"):
            await serve_layout(self.layout, self.receive, self.next_message)
        async with self.layout:
            while True:
                await self.receive(await self.layout.render())

    async def receive(self, update):
        self.client.apply(update)
        self.log("update")
        self.judge_acks()

    async def next_message(self):
        while not self.inbox:
            self.wake = self.loop.create_future()
            await self.wake
        return self.inbox.pop(0)

    # -- handlers
    def begin(self, name, ident, seq):
        self.log(f"start {name} {ident}")
        if name in self.running:
            self.fail(f"{self.prop}:handler {name} started for event {ident} while it handles {self.running[name]}")
        self.running[name] = ident
        self.started[name].append(ident)
        self.unhandled = [w for w in self.unhandled if w[2] != ident]
        if type(seq) is int and seq >= 0:
            self.taken[name] = max(seq, self.taken.get(name, -1))

    def end(self, name, ident):
        self.log(f"end {name} {ident}")
        self.running.pop(name, None)
        self.ended.setdefault(name, []).append(ident)

    def instant(self, kind, name):
        if kind == "raise":
            raise ValueError("handler")
        if kind == "set":
            self.setters["R"](lambda s: s + 1)

    async def behave(self, kind, name, ident):
        loop = self.loop
        if kind in ("slow", "slow-raise", "slow-set"):
            fut = loop.create_future()
            self.pending.append((f"{name}-{ident}", fut))
            await fut
            self.instant(kind[5:], name)
        elif kind == "never":
            await loop.create_future()
        elif kind == "cancelled":
            f = loop.create_future()
            f.cancel()
            await f
        elif kind == "sleep":
            await asyncio.sleep(0.1)
        elif kind == "group":
            async with asyncio.TaskGroup():
                raise ValueError("group")
        else:
            self.instant(kind, name)

    # -- deliveries
    def act(self, a):
        if "set" in a:
            self.setters["R"](a["set"])
            return
        self.count += 1
        ident, name = self.count, a["to"]
        t = self.find(name)
        if t is None:
            return
        self.delivered.setdefault(name, []).append(ident)
        msg = {"type": "layout-event", "target": t, "data": [ident, a.get("seq")]}
        if "seq" in a:
            msg["seq"] = a["seq"]
            if type(a["seq"]) is int:
                self.sent[name] = max(a["seq"], self.sent.get(name, -1))
        w = [name, a.get("seq"), ident, False]
        if type(a.get("seq")) is int and a["seq"] >= 0:
            self.unhandled.append(w)
            self.arrived.append((name, a["seq"]))
        if self.params.get("serve"):
            self.inbox.append(msg)
            if not self.wake.done():
                self.wake.set_result(None)
        else:
            self.loop.create_task(self.deliver(msg, w))

    async def deliver(self, msg, w):
        w[3] = True
        await self.layout.deliver(msg)

    def element_of(self, name):
        for el in self.params["elements"]:
            for ev, n in el["on"].items():
                if name == n or (isinstance(n, list) and name in n):
                    return el, ev

    def find(self, name):
        el, ev = self.element_of(name)
        for path, e, t in targets(self.client.view):
            node = self.client.view
            for j in path:
                node = node["children"][j]
            if e == ev and node["attributes"]["id"] == el["id"]:
                return t

    # -- judging
    def judge_acks(self):
        if "ack" not in self.params["judge"]:
            return
        byid = {el["id"]: el for el in self.params["elements"]}
        div = self.client.view["children"][0]
        present = set()
        for node in div.get("children", []):
            at = node["attributes"]
            el = byid[at["id"]]
            present.add(at["id"])
            ack = at.get("_reactpy_ack_seq")
            bound = list(el["on"].values())
            taken, before = self.snap[div["attributes"]["data-t"]]
            lo = max((taken.get(n, -1) for n in bound), default=-1)
            hi = max((self.taken.get(n, -1) for n in bound), default=-1)
            # not ahead of an event that was still waiting for its handler
            lo = max(-1, min([lo] + [w[1] - 1 for w in before + self.unhandled if w[0] in bound]))
            if not el.get("absent") and all(isinstance(n, str) for n in bound):
                waits = {w[2] for w in self.unhandled}
                hi = max(-1, min([hi] + [w[1] - 1 for w in before if w[0] in bound and w[3] and w[2] in waits]))
            if ack is not None and type(ack) is not int:
                self.fail(f"{self.prop}:the acknowledgement of {at['id']} is {ack!r}")
                continue
            if el.get("tag", "button") not in ("input", "select", "textarea"):
                if ack is not None:
                    self.fail(f"{self.prop}:{el.get('tag')} element {at['id']} carries acknowledgement {ack}")
                continue
            got = -1 if ack is None else ack
            if not lo <= got <= hi:
                self.fail(f"{self.prop}:{at['id']} acknowledges {got}, taken up so far: {lo}..{hi}")
            seqs = [q for n, q in self.arrived if n in bound]
            if got < self.shown_acks.get(at["id"], -1) and seqs == sorted(seqs):
                self.fail(f"{self.prop}:the acknowledgement of {at['id']} decreased to {got}")
            self.shown_acks[at["id"]] = got
        for gone in set(self.shown_acks) - present:
            del self.shown_acks[gone]
            for n in byid[gone]["on"].values():
                self.taken.pop(n, None)

    def after_step(self):
        if "order" not in self.params["judge"] or self.loop.has_ready() or self.loop.next_timer() is not None:
            return
        for name, ids in self.delivered.items():
            got = self.started.get(name, [])
            if got != ids[:len(got)]:
                self.fail(f"{self.prop}:events {ids} for {name} were handled in the order {got}")
            if len(got) != len(ids) and name not in self.running:
                self.fail(f"{self.prop}:events {ids[len(got):]} for {name} are not processed although its handler is idle")

    def finish(self):
        if self.session.done():
            self.fail(f"{self.prop}:the session ended: {self.session}")
        if "order" in self.params["judge"]:
            left = [t for t in self.loop.tasks if not t.done() and t.get_coro().__qualname__ == "EventHarness.deliver"]
            if left and not self.running:
                self.fail(f"{self.prop}:{len(left)} deliveries never complete")


def c07_jobs():
    q = tier() == "quick"
    out = []

    def add(handlers, deliveries, bq, bt, queues=(1, 2, 1000), modes=("async",), **kw):
        els = [{"id": n, "on": {"onClick": n}} for n in handlers]
        for queue in queues:
            for m in modes:
                out.append((EventHarness, dict(prop="C07", judge=["order"], handlers=handlers, elements=els,
                                               deliveries=[[{"to": x} if x in handlers else {"set": int(x)} for x in d]
                                                           for d in deliveries], queue=queue, mode=m, **kw), bq if q else bt))
    add({"A": ["fast"], "B": ["fast"]}, [["A", "B", "A"], ["A", "B"]], 3, 4, modes=("async", "serial"))
    add({"A": ["slow"], "B": ["fast"]}, [["A", "A", "B", "A"], ["A", "B"]], 3, 4)
    add({"A": ["slow", "fast"], "B": ["slow"]}, [["A", "A", "A"], ["B", "A"]], 3, 4)
    add({"A": ["never"], "B": ["fast"]}, [["A", "A", "B"], ["B", "A", "B"]], 3, 4)
    add({"A": ["raise", "fast"], "B": ["slow-raise", "fast"]}, [["A", "B", "A"], ["B", "A"]], 3, 4)
    add({"A": ["cancelled", "slow", "fast"], "B": ["group", "fast"]}, [["A", "A", "A"], ["B", "B"]], 3, 4)
    add({"A": ["slow-set"], "B": ["set"]}, [["A", "B", "A"], ["A"]], 2, 4, modes=("async", "serial"))
    add({"A": ["sleep"], "B": ["slow", "raise", "fast"]}, [["A", "B", "A"], ["B", "B"]], 3, 4)
    add({"A": ["slow"], "B": ["sleep"]}, [["A", "1", "A", "2"], ["A", "B"]], 2, 4, modes=("async", "serial"))
    # the same through a whole session
    for handlers, d in (({"A": ["slow"], "B": ["fast"]}, [["A", "A", "A", "A", "B"], ["B", "A"]]),
                        ({"A": ["never"], "B": ["slow", "fast"], "C": ["raise", "fast"]}, [["A", "A", "A", "B", "C"], ["B", "C", "C"]]),
                        ({"A": ["slow-set", "fast"], "B": ["set"]}, [["A", "A", "B"], ["B", "A"]])):
        add(handlers, d, 2, 3, queues=(1, 1000), modes=("async", "serial"), serve=True)
    # one handler only, many events, small queues: events waiting for space keep their order
    add({"A": ["slow"]}, [["A", "A", "A", "A", "A"], ["A"]], 3, 4, queues=(1, 2))
    add({"A": ["fast"]}, [["A", "A", "A", "A"], ["A", "A"]], 3, 4, queues=(1, 2), debug=True)
    return out


def c14_jobs():
    q = tier() == "quick"
    out = []

    def add(elements, handlers, deliveries, bq, bt, modes=("async", "serial")):
        for m in modes:
            out.append((EventHarness, dict(prop="C14", judge=["ack"], handlers=handlers, elements=elements,
                                           deliveries=deliveries, mode=m), bq if q else bt))

    def ev(to, *seqs):
        return [{"to": to, "seq": s} for s in seqs]
    inp = {"id": "I", "tag": "input", "value": True, "on": {"onChange": "A", "onKeyDown": "B"}}
    add([inp], {"A": ["set"], "B": ["fast"]}, [ev("A", 0, 2, 4), ev("B", 1, 3)], 3, 4)
    add([inp], {"A": ["slow-set"], "B": ["set"]}, [ev("A", 0, 2, 3), ev("B", 1)], 3, 4)
    add([inp], {"A": ["set"], "B": ["slow", "raise"]}, [ev("A", 5, 3, 4), ev("B", 7, 6), [{"set": 9}]], 3, 4)
    order = [{"to": n, "seq": i} for i, n in enumerate("ABABBA")]
    add([inp], {"A": ["slow-set"], "B": ["set"]}, [order], 3, 4)
    add([inp], {"A": ["set"], "B": ["slow"]}, [order, [{"set": 9}]], 3, 4)
    # malformed and missing numbers
    for bad in (-1, "7", None, 1.5, True, [3], {"a": 1}):
        add([inp], {"A": ["set"], "B": ["set"]}, [ev("A", bad, 0, bad), ev("B", bad) + [{"to": "B"}], ev("A", 2)], 1, 2)
    # several elements: nothing leaks between them, and none on others
    three = [inp, {"id": "S", "tag": "select", "value": True, "on": {"onChange": "C"}},
             {"id": "T", "tag": "textarea", "value": True, "on": {"onInput": "D"}},
             {"id": "X", "tag": "button", "on": {"onClick": "E"}},
             {"id": "Y", "tag": "div", "on": {"onClick": "F"}}]
    hs = {n: ["set"] for n in "ABCDEF"}
    add(three, hs, [ev("A", 0, 1) + ev("E", 9), ev("C", 5) + ev("F", 8), ev("D", 3) + ev("E", 4)], 2, 3)
    add(three, {**hs, "C": ["slow-set"], "D": ["fast"]}, [ev("C", 0, 1), ev("D", 2, 1), ev("A", 4)], 2, 3)
    # elements which are made once and displayed again and again
    kept = {**inp, "kept": True}
    add([kept], {"A": ["set"], "B": ["set"]}, [ev("A", 0, 1, 2), ev("B", 3, 4)], 2, 3)
    add([kept, {"id": "S", "tag": "select", "kept": True, "on": {"onChange": "C"}}], {"A": ["slow-set"], "B": ["set"], "C": ["set"]},
        [ev("A", 0, 2), ev("C", 3, 5), ev("B", 1, 4)], 2, 3)
    # an element that is removed starts anew when it is displayed again
    gone = {"id": "G", "tag": "input", "value": True, "on": {"onChange": "A"}, "absent": [1]}
    add([gone, {"id": "S", "tag": "select", "value": True, "on": {"onChange": "C"}}], {"A": ["fast"], "C": ["fast"]},
        [ev("A", 3) + [{"set": 1}, {"set": 2}, {"set": 3}], ev("C", 1)], 1, 2)
    return out


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    budget = float(os.environ.get("VERIF_BUDGET", 600 if tier() == "quick" else 800))
    deadline = time.time() + budget
    if prop == "C06":
        q = tier() == "quick"
        small = ["b", "1", "i1", "a/b", "div", "T", "T2", "C", "both", "none", "key", "nil"]
        two = list(shapes(2))

        def pairs():
            for a, b in itertools.product(two, repeat=2):
                yield "async", (a, b)

        def triples():
            one = list(shapes(1, small)) + [("b", "1"), ("div", "a/b"), ("T", "T"), ("nil", "b")]
            one = [s for s in one if s != ("T", "T")] + [("b", "T"), ("T2", "key"), ("key", "both"), ("none", "b")]
            for w in itertools.product(one, repeat=3 if q else 4):
                yield "serial", w
                yield "async", w

        groups = [("pairs of views", pairs, judge_c06), ("triples of views", triples, judge_c06)]
        if not q:
            groups.append(("views of three items", lambda: (("async", (a, b)) for a in shapes(3, small)
                                                          for b in shapes(1, small)), judge_c06))
        jobs = []
        for m in ("async", "serial"):
            for c in ("auto", "gated"):
                for acts in ([["A!onClick", "B!onClick", "A!onKeyDown"], ["R=1", "R=2"]],
                             [["B!onClick", "A!onClick"], ["R=3", "R=0"], ["B=1"]],
                             [["A!onClick", "A!onClick"], ["R=2", "R=1", "R=3"]]):
                    jobs.append((LayoutHarness, dict(prop="C06", judge=["events", "view"], program="route", acts=acts,
                                                     mode=m, consumer=c), 2 if q else 3))
        stotal, sper = explore.explore_many(jobs, deadline)
        total, per = space.run(groups, deadline)
        chk.set(schedules_explored=stotal.executions, schedule_states=len(stotal.states),
                schedule_outcomes=len(stotal.outcomes), schedules_capped=stotal.capped)
        report_violations(chk, jobs, stotal)
        space.finish(chk, groups, total, per,
                     "case = a history of views of one component; after each rendering one event is delivered to every "
                     "displayed address, every address displayed earlier and to unknown ones; state = displayed view, "
                     "transition = rendering or delivery", "all histories of two views with at most 2 items of the "
                     f"{len(ITEMS)}-item alphabet, all histories of {3 if q else 4} small views, both rendering modes")
    else:
        jobs = c07_jobs() if prop == "C07" else c14_jobs()
        total, per = explore.explore_many(jobs, deadline)
        report(chk, jobs, total, per)
    chk.done()


if __name__ == "__main__":
    main()
