"""C13: real ASGI sessions of one application under every bounded schedule of clients, faults and slow parts."""
from __future__ import annotations

import asyncio
import json
import os
import sys
import time
import types

from reactpy import component, config, html
from reactpy.core.hooks import ConnectionContext, use_async_effect, use_effect, use_location, use_state
from reactpy.core.layout import Layout
from reactpy.core.serve import serve_layout
from reactpy.executors.asgi.middleware import ReactPyMiddleware, _location_from_websocket_query_string
from reactpy.types import Connection
from reactpy.executors.asgi.standalone import ReactPy

from checks.c_layout import report
from mc import explore
from mc.app import Client
from mc.explore import Actor, Harness
from mc.report import Check, tier

MODULE = "verif_root_components"


class Unserialisable:
    pass


ERRORS = {"OSError": OSError, "reset": ConnectionResetError, "runtime": RuntimeError, "closed": asyncio.InvalidStateError}


class Gone(Exception):
    pass


class Peer:
    """One websocket connection as an ASGI server presents it."""

    def __init__(self, h, n, path, query, script, fault):
        self.h, self.n, self.path, self.query, self.script = h, n, path, query, list(script)
        self.fault = fault or {}
        self.error = ERRORS[self.fault.get("error", "OSError")]
        self.inbox = asyncio.Queue()
        self.client = Client()
        self.sends = self.receives = 0
        self.accepted = self.closed = self.gone = self.broken = False
        self.clicks = 0
        self.gate = None
        self.task = None

    def name(self):
        return f"s{self.n}"

    async def app(self):
        scope = {"type": "websocket", "path": self.path, "query_string": self.query, "headers": [], "subprotocols": [],
                 "root_path": "", "scheme": "ws", "client": ("c", self.n), "server": ("s", 1), "asgi": {"version": "3.0"}}
        await self.h.asgi(scope, self.receive, self.send)

    async def receive(self):
        k = self.receives
        self.receives += 1
        if self.fault.get("receive") == k:
            self.broken = True
            raise self.error("receive failed")
        msg = await self.inbox.get()
        if msg["type"] == "websocket.disconnect":
            self.gone = True
        return msg

    async def send(self, msg):
        k = self.sends
        self.sends += 1
        if self.h.params.get("slow"):
            self.gate = self.h.loop.create_future()
            await self.gate
            self.gate = None
        if self.fault.get("send") == k:
            if not self.fault.get("only_once"):
                self.broken = True
                self.leave()  # a server which cannot send also reports the end of the connection
            raise self.error("send failed")
        if self.broken:
            raise self.error("connection is gone")
        if self.gone or self.closed:
            return
        if msg["type"] == "websocket.accept":
            if self.accepted:
                self.h.fail(f"C13:{self.name()} accepted twice")
            self.accepted = True
        elif msg["type"] == "websocket.close":
            self.closed = True
            self.leave()
        else:
            if not self.accepted:
                self.h.fail(f"C13:{self.name()} got {msg['type']} before the connection was accepted")
            self.client.apply(json.loads(msg["text"]))
            self.h.log(f"{self.name()} update")
            for p in self.client.problems:
                self.h.fail(f"C13:{self.name()}: {p}")

    def put(self, msg):
        self.inbox.put_nowait(msg)

    def leave(self):
        self.put({"type": "websocket.disconnect", "code": 1006})

    # -- what the client does
    def when(self, actor):
        a = self.script[actor.pos]
        if a == "connect":
            return True
        if a[0] == "burst":
            return all(self.target(x) is not None for x in a[1:]) and self.accepted and not self.gone and not self.closed
        if a == "leave" or a[0] == "raw":
            return not self.gone and not self.closed
        return self.accepted and not self.gone and not self.closed and self.target(a) is not None

    def target(self, a):
        from mc.app import targets
        for path, e, t in targets(self.client.view):
            if e == ("onClick" if a == "click" else a):
                return t
        return None

    def act(self, a):
        if a == "connect":
            self.put({"type": "websocket.connect"})
        elif a == "leave":
            self.leave()
        elif a[0] == "burst":  # several events at once
            for x in a[1:]:
                self.act(x)
        elif a[0] == "raw":
            self.put({"type": "websocket.receive", **a[1]})
        else:
            self.clicks += a == "click"
            self.h.posted[self.n].append(f"{a}{len(self.h.posted[self.n])}")
            self.put({"type": "websocket.receive", "text": json.dumps(
                {"type": "layout-event", "target": self.target(a), "data": [self.h.posted[self.n][-1]]})})


class SessionHarness(Harness):
    """params: app (middleware|standalone), sessions: [dict(path, query, script, fault)], slow, mode, max_queue"""

    name = "sessions"

    def setup(self):
        p = self.params
        config.REACTPY_ASYNC_RENDERING.current = p.get("mode", "async") == "async"
        config.REACTPY_DEBUG.current = False
        config.REACTPY_MAX_QUEUE_SIZE.current = p.get("queue", 1000)
        config.REACTPY_PATH_PREFIX.current = "/reactpy/"
        h = self
        self.effects = {}      # (session, effect) -> [started, cleaned]
        self.handled = {}
        self.posted = {}
        self.pending = []

        def root(kind):
            @component
            def Root():
                who = use_location().query_string
                n, set_n = use_state(0)
                other, set_other = use_state("")
                h.log(f"{who} render {kind}{n}")

                @use_effect(dependencies=[n])
                def effect():
                    e = h.effects.setdefault((who, "sync", n), [0, 0])
                    e[0] += 1

                    def clean():
                        e[1] += 1
                    return clean

                @use_async_effect(dependencies=[])
                async def slow_effect():
                    e = h.effects.setdefault((who, "async", 0), [0, 0])
                    e[0] += 1
                    try:
                        await h.loop.create_future()
                    finally:
                        await asyncio.sleep(0)
                        e[1] += 1

                def click(ident):
                    h.handled.setdefault(who, []).append(ident)
                    set_n(lambda x: x + 1)

                async def wait(ident):
                    fut = h.loop.create_future()
                    h.pending.append(fut)
                    await fut
                    h.handled.setdefault(who, []).append(ident)
                    set_other(ident)

                def odd(ident):
                    set_other(Unserialisable())

                return html.div(html.button({"onClick": click, "title": f"{kind} {who} {n}"}), html.i({"onBlur": wait}),
                                html.b({"onKeyDown": odd, "title": other}))
            return Root
        module = types.ModuleType(MODULE)
        module.a, module.b, module.hidden = root("a"), root("b"), root("hidden")
        sys.modules[MODULE] = module

        async def fallback(scope, receive, send):
            h.fail(f"C13:the wrapped application was asked to handle {scope['path']}")
        async def serve(scope, receive, send):
            """What another backend does with `serve_layout`."""
            async def receive_json():
                msg = await receive()
                if msg["type"] == "websocket.disconnect":
                    raise Gone()
                return json.loads(msg["text"])
            await receive()
            await send({"type": "websocket.accept"})
            conn = Connection(scope=scope, location=_location_from_websocket_query_string(scope["query_string"].decode()), carrier=None)
            try:
                await serve_layout(Layout(ConnectionContext(module.a(), value=conn)),
                                   lambda m: send({"type": "websocket.send", "text": json.dumps(m)}), receive_json)
            except* Gone:
                pass
        if p.get("app") == "serve":
            self.asgi = serve
        elif p.get("app") == "standalone":
            self.asgi = ReactPy(module.a)
        else:
            self.asgi = ReactPyMiddleware(fallback, [f"{MODULE}.a", f"{MODULE}.b"])
        self.peers = []
        for n, s in enumerate(p["sessions"]):
            peer = Peer(self, n, s["path"], s.get("query", f"path=%2F&qs=u{n}").encode(), s["script"], s.get("fault"))
            peer.dead, peer.who = s.get("dead", False), s.get("who", f"u{n}")
            self.posted[n] = []
            self.peers.append(peer)
            peer.task = self.loop.create_task(peer.app())
            actor = Actor(peer.name(), [(str(a), lambda a=a, peer=peer: peer.act(a)) for a in peer.script])
            actor.when = lambda peer=peer, actor=actor: peer.when(actor)
            self.actors.append(actor)
        if p.get("slow"):
            for peer in self.peers:
                self.actors.append(Actor(f"sent-{peer.name()}", when=lambda q=peer: q.gate is not None and not q.gate.done(),
                                         repeat=lambda q=peer: q.gate.set_result(None)))
        self.actors.append(Actor("user-done", when=self.waiting, repeat=lambda: self.pending.pop(0).set_result(None)))

    def waiting(self):
        self.pending = [f for f in self.pending if not f.done()]
        return bool(self.pending)

    def finish(self):
        live = 0
        for p in self.peers:
            who = p.who
            ended = p.task.done()
            kind = {"a": "a", "b": "b"}.get(p.path.rstrip("/")[-1:], "a")
            if p.gone or p.broken or p.dead or p.closed or (ended and p.fault):
                if not ended:
                    self.fail(f"C13:session {p.n} hangs after it ended (gone {p.gone}, failed {p.broken}, closed {p.closed})")
                elif p.gone and not p.broken and not p.dead and not p.fault and p.task.exception() is not None:
                    self.fail(f"C13:session {p.n} raised {p.task.exception()!r}")
                for (w, label, i), (a, b) in self.effects.items():
                    if w == who and a != b:
                        self.fail(f"C13:effect {label} {i} of ended session {p.n} started {a} times and was cleaned up {b} times")
                continue
            if ended:
                self.fail(f"C13:session {p.n} ended although nothing failed: {p.task.exception()!r}")
                continue
            live += 1
            if not p.accepted:
                continue
            shown = None if p.client.view is None else self.find_button(p.client.view)
            if shown is None:
                self.fail(f"C13:session {p.n} displays {p.client.view}")
            elif shown != f"{kind} {who} {p.clicks}":
                self.fail(f"C13:session {p.n} displays {shown!r}, expected {kind} {who} {p.clicks}")
            got = self.handled.get(who, [])
            if sorted(got) != sorted(x for x in self.posted[p.n] if not x.startswith("onKeyDown")):
                self.fail(f"C13:session {p.n} handled {got}, its client sent {self.posted[p.n]}")
            order = [x for x in got if x.startswith("click")]
            if order != [x for x in self.posted[p.n] if x.startswith("click")]:
                self.fail(f"C13:session {p.n} handled its clicks in the order {order}")
        for p in self.peers:
            for x in self.handled.get(p.who, []):
                if x not in self.posted[p.n] or self.handled[p.who].count(x) > 1:
                    self.fail(f"C13:session {p.n} handled {self.handled[p.who]}, its client sent {self.posted[p.n]}")
        if not live:
            left = sorted(getattr(t.get_coro(), "__qualname__", "?") for t in self.loop.tasks if not t.done())
            if left:
                self.fail(f"C13:tasks {left} remain although every session ended")
        for m in self.loop.problems:
            self.fail(f"C13:{m}")
        if any(w == "hidden" for w in self.effects):
            self.fail("C13:an unregistered component was rendered")

    @staticmethod
    def find_button(view):
        def walk(n):
            if isinstance(n, dict):
                if n.get("tagName") == "button":
                    return n["attributes"]["title"]
                for c in n.get("children") or []:
                    r = walk(c)
                    if r:
                        return r
        return walk(view)

    def outcome(self):
        return hash((self._h, str([p.client.view for p in self.peers])))


A, B = f"/reactpy/{MODULE}.a/", f"/reactpy/{MODULE}.b/"
NORMAL = ["connect", "click", "click"]
RAW = [("text", "{"), ("text", "[]"), ("text", "null"), ("text", '"x"'), ("text", "{}"), ("text", '{"type": "other"}'),
       ("text", '{"type": "layout-event"}'), ("text", '{"type": "layout-event", "target": "x"}'),
       ("text", '{"type": "layout-event", "target": ["x"], "data": []}'), ("text", '{"type": "layout-event", "target": null, "data": 3}'),
       ("bytes", b"abc"), ("text", None)]


def S(path, script, **kw):
    return dict(path=path, script=script, **kw)


def jobs(q):
    out = []

    def add(sessions, quick, thorough, **kw):
        for mode in (("async", "serial") if not q or kw.pop("both", False) else ("async",)):
            out.append((SessionHarness, dict(sessions=sessions, mode=mode, **kw), quick if q else thorough))
    for slow in (False, True):
        # leaving at any moment while the other session goes on
        add([S(A, ["connect", "click", "leave"]), S(A, NORMAL)], 2, 3, slow=slow, both=True)
        add([S(A, ["connect", "click", "leave"]), S(B, NORMAL)], 2, 3, slow=slow)
        add([S(A, ["connect", "onBlur", "click", "leave"]), S(A, ["connect", "onBlur", "click"])], 2, 3, slow=slow)
        add([S("/reactpy/", ["connect", "click", "leave"]), S("/reactpy/", NORMAL)], 2, 3, slow=slow, app="standalone")
        # both clients click: nobody sees the other's events
        add([S(A, NORMAL), S(A, ["connect", "click", "onBlur", "click"])], 2, 3, slow=slow, both=True)
        # the n-th send fails, the connection being lost or not
        for k in range(5):
            for once in (False, True):
                add([S(A, ["connect", "click", "click", "click"], fault={"send": k, "only_once": once}), S(A, NORMAL)],
                    1, 2, slow=slow)
        # a view which cannot be sent
        add([S(A, ["connect", "click", "onKeyDown", "click"], fault={"view": 1}, dead=True), S(A, NORMAL)], 1, 2, slow=slow)
    # other kinds of failures, and sessions served without the ASGI applications
    for err in ERRORS:
        for k in range(1, 4):
            add([S(A, ["connect", "click", "click"], fault={"send": k, "only_once": True, "error": err}), S(A, ["connect", "click"])], 1, 2)
            for once in (False, True):
                add([S(A, ["connect", "click", "click"], fault={"send": k, "only_once": once, "error": err})], 2, 3, app="serve")
            add([S(A, ["connect", "click", "click"], fault={"receive": k, "error": err})], 2, 3, app="serve")
    add([S(A, ["connect", "click", "onBlur", "leave"]), S(A, ["connect", "click"])], 2, 3, app="serve")
    add([S(A, ["connect", "click", "onKeyDown", "click"], fault={"view": 1}, dead=True)], 2, 3, app="serve")
    for k in range(4):
        add([S(A, ["connect", "click", "click"], fault={"receive": k}), S(A, NORMAL)], 2, 3)
    for key, raw in RAW:
        add([S(A, ["connect", "click", ("raw", {key: raw}), "click"], fault={"raw": 1}), S(A, ["connect", "click"])], 1, 2)
    # what cannot be served
    for path, query in ((f"/reactpy/{MODULE}.hidden/", "path=%2F&qs=hidden"), ("/reactpy/nowhere.at.all/", "path=%2F&qs=u0"),
                        (A, ""), (A, "nonsense"), (A, "path=%ff&qs=u0")):
        dead = query == "nonsense" or path != A
        add([S(path, ["connect"] + ([] if dead else ["click"]), query=query, dead=dead, who="" if not query else "u0", fault={"path": 1}), S(A, NORMAL)], 2, 3)
    # small queues
    add([S(A, ["connect", "click", "click", "click", "leave"]), S(A, NORMAL)], 1, 2, queue=1)
    add([S(A, ["connect", "onKeyDown", "click", "click", "click", "leave"], fault={"view": 1}, dead=True), S(A, NORMAL)], 1, 2, queue=1)
    for n in (1, 2):
        for k in (1, 3, 9, 18):
            add([S(A, ["connect", ("burst", *["click"] * k, "onBlur", "click"), "click", "leave"]), S(A, NORMAL)], 1, 2, queue=n)
            add([S(A, ["connect", ("burst", "onKeyDown", *["click"] * k), "leave"], fault={"view": 1}, dead=True), S(A, ["connect", "click"])], 1, 2, queue=n)
            add([S(A, ["connect", ("burst", *["click"] * k)], fault={"send": 2}), S(A, ["connect", "click"])], 1, 2, queue=n)
    return out


def main():
    chk = Check("C13")
    q = tier() == "quick"
    js = jobs(q)
    total, per = explore.explore_many(js, time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800)))
    report(chk, js, total, per)
    chk.assumptions += ["the ASGI server reports a disconnect after it could not send or after the application closed the websocket",
                        "work handed to a thread is done in one step of the loop"]
    chk.done()


if __name__ == "__main__":
    main()
