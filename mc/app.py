"""Component programs whose expected view is computed independently of the layout under test.

A program is a dict  name -> Spec(init, view, effects).  `view(h, s)` builds the output of a component in
state `s` with the builder `h`; run with the *real* builder it constructs reactpy elements/components, run
with the *reference* builder it constructs the JSON a client must end up with.  Every mounted component
instance gets an id when its state is initialised, and every value handed to its setter is recorded, so the
expected view is `view(reference builder, last value assigned)` from the root down.
"""
from __future__ import annotations

import asyncio
import json

import reactpy
from reactpy import component, html
from reactpy.core.hooks import create_context, use_context, use_state
from reactpy.core.vdom import Vdom


class Spec:
    def __init__(self, init=0, view=None, effects=(), ):
        self.init, self.view, self.effects = init, view, effects


class Inst:
    __slots__ = ("iid", "name", "parent", "key", "want", "setter", "renders", "app", "handlers", "seen")

    def __init__(self, app, iid, name, parent, key, init):
        self.app, self.iid, self.name, self.parent, self.key = app, iid, name, parent, key
        self.want, self.setter, self.renders, self.handlers, self.seen = init, None, 0, {}, None

    def set(self, value):
        self.app.hist.append(("set", self.iid, value != self.want, self.app.h.loop.turn))
        self.want = value
        self.setter(value)

    def update(self, fn):
        old, self.want = self.want, fn(self.want)
        self.app.hist.append(("set", self.iid, old != self.want, self.app.h.loop.turn))
        self.setter(fn)


class RealBuilder:
    def __init__(self, app, inst):
        self.app, self.inst = app, inst

    def el(self, tag, *children, **attrs):
        a = {}
        for k, v in attrs.items():
            if callable(v):
                self.inst.handlers[(tag, attrs.get("key"), k)] = v
            a[k] = v
        return Vdom(tag)(a, *children) if a else Vdom(tag)(*children)

    def comp(self, name, key=None):
        c = self.app.types[name]
        return c(self.inst.iid, key, key=key) if key is not None else c(self.inst.iid, None)

    def on(self, label, fn=None):
        inst, app = self.inst, self.app

        def handler(*data):
            app.h.log(f"handle {inst.name}{inst.iid}.{label}" + (f" {data}" if data else ""))
            app.handled.append((f"{inst.name}{inst.key or ''}", label, data))
            if fn is not None:
                fn(inst)
        return handler

    def slow(self, label):
        """A handler that waits for the user's environment."""
        inst, app = self.inst, self.app
        who = f"{inst.name}{inst.key or ''}"

        async def handler(*data):
            h = app.h
            h.log(f"handle {who}.{label} {data}")
            if (who, label) in app.cancelled:
                h.fail(f"{h.prop}:event {data} for {label} of {who} was started although the handler was cancelled before")
            app.handled.append((who, label, data))
            fut = h.loop.create_future()
            h.pending.append((f"{who}.{label}{data}", fut))
            try:
                await fut
            except asyncio.CancelledError:
                app.cancelled.add((who, label))
                h.log(f"cancelled {who}.{label} {data}")
                raise
            h.log(f"handled {who}.{label} {data}")
        return handler

    def ctx(self, name, value, *children, key=None):
        return self.app.contexts[name](*children, value=value, key=key)

    def read(self, name):
        return use_context(self.app.contexts[name])

    def fail(self, msg="boom", kind=ValueError):
        raise kind(msg)

    def bad(self, how):
        """Something that cannot be rendered."""
        if how == "keys":
            return Vdom("u")(Vdom("i")({"key": "d"}), Vdom("i")({"key": "d"}))
        return {"children": ["no tag name"]}

    def raiser(self, kind):
        def do(inst):
            raise kind("handler")
        return do

    def do(self, fn):
        """A side effect of rendering."""
        fn(self.app, self.inst)


class RefError(Exception):
    pass


class RefBuilder:
    """Builds the reference view lazily: only what ends up in the returned tree is resolved."""

    def __init__(self, app, inst, env=None):
        self.app, self.inst, self.env = app, inst, env or {}

    def ctx(self, name, value, *children, key=None):
        return ("ctx", name, value, children)

    def read(self, name):
        return self.env.get(name, f"default-{name}")

    def el(self, tag, *children, **attrs):
        return ("el", tag, children, attrs)

    def comp(self, name, key=None):
        return ("comp", name, self.inst.iid, key)

    def on(self, label, fn=None):
        return lambda e=None: None

    slow = on

    def fail(self, msg="boom", kind=ValueError):
        raise RefError(f"{kind.__name__}: {kind(msg)}")

    def bad(self, how):
        return ("bad", how)

    def raiser(self, kind):
        return None

    def do(self, fn):
        pass


def flatten(xs):
    for x in xs:
        if isinstance(x, list):
            yield from flatten(x)
        else:
            yield x


class App:
    def __init__(self, h, program, effects=None):
        self.h, self.program = h, program
        self.insts: dict[int, Inst] = {}
        self.current: dict[tuple, int] = {}
        self.handled = []
        self.cancelled = set()
        self.hist = []               # ("set", instance, whether the value changed, turn), ("render", instance, parent, turn)
        self.contexts = {n: create_context(f"default-{n}") for n in "XY"}
        self.types = {name: self._make(name, spec) for name, spec in program.items() if isinstance(spec, Spec)}

    def root(self):
        return self.types["R"](0, None)

    def _new(self, name, parent, key, spec):
        iid = len(self.insts) + 1
        inst = Inst(self, iid, name, parent, key, spec.init)
        self.insts[iid] = inst
        self.current[(parent, key, name)] = iid
        self.h.log(f"mount {name}{iid}")
        return inst

    def _make(self, name, spec):
        app = self

        def render(parent, k):
            inst, _ = use_state(lambda: app._new(name, parent, k, spec))
            s, set_s = use_state(lambda: spec.init)
            inst.setter = set_s
            inst.renders += 1
            inst.seen = s
            inst.handlers = {}
            app.hist.append(("render", inst.iid, parent, app.h.loop.turn))
            app.h.log(f"render {name}{inst.iid}={s}")
            for e in spec.effects:
                e(app, inst, s)
            return spec.view(RealBuilder(app, inst), s)

        render.__name__ = render.__qualname__ = name
        return component(render)

    # -- the reference
    def expected(self, name="R", parent=0, key=None, live=None, env=None):
        """What a client must show for a component; the instances it consists of are added to `live`."""
        iid = self.current.get((parent, key, name))
        if iid is None:
            return {"tagName": "", "children": [f"<never mounted: {name}>"]}
        inst = self.insts[iid]
        if live is not None:
            live.append(iid)
        below = None if live is None else len(live)
        try:
            v = self.program[name].view(RefBuilder(self, inst, env), inst.want)
            if v is None:
                return {"tagName": ""}
            return {"tagName": "", "children": [self._resolve(v, live, env)]}
        except RefError as e:
            if live is not None:
                del live[below:]     # nothing below a failed component is displayed
            return {"tagName": "", "error": str(e) if reactpy.config.REACTPY_DEBUG.current else ""}

    def _resolve(self, v, live, env):
        if not isinstance(v, tuple):
            return str(v)
        if v[0] == "bad":
            raise RefError(v[1])
        if v[0] == "comp":
            return self.expected(*v[1:], live=live, env=env)
        if v[0] == "ctx":
            inner = {**(env or {}), v[1]: v[2]}
            kids = [self._resolve(c, live, inner) for c in flatten(v[3]) if c is not None]
            frag = {"tagName": "", "children": kids} if kids else {"tagName": ""}
            return {"tagName": "", "children": [frag]}
        _, tag, children, attrs = v
        node = {"tagName": tag}
        plain = {k: a for k, a in attrs.items() if not callable(a)}
        hs = sorted(k for k, a in attrs.items() if callable(a))
        if plain:
            node["attributes"] = plain
        if hs:
            node["eventHandlers"] = hs
        kids = [self._resolve(c, live, env) for c in flatten(children) if c is not None]
        if kids:
            node["children"] = kids
        return node

    def expected_live(self):
        """Instances which are part of the expected view."""
        live = []
        self.expected(live=live)
        return live

    def inst(self, name, key=None):
        """The most recently mounted instance of `name` (with `key` if given)."""
        for iid in sorted(self.insts, reverse=True):
            i = self.insts[iid]
            if i.name == name and (key is None or i.key == key):
                return i
        return None


def norm(node):
    """What a client displays of a node: element, attributes (components have none, only a key), handler names and children."""
    if not isinstance(node, dict):
        return node
    if "error" in node:
        return {"tagName": node.get("tagName", ""), "error": node["error"]}
    out = {"tagName": node["tagName"]}
    at = {k: v for k, v in (node.get("attributes") or {}).items() if not k.startswith("_reactpy") and node["tagName"]}
    if at:
        out["attributes"] = at
    eh = node.get("eventHandlers")
    if eh:
        out["eventHandlers"] = sorted(eh)
    kids = [norm(c) for c in node.get("children") or []]
    if kids:
        out["children"] = kids
    return out


class Client:
    """The reference client: applies updates by replacing the addressed node."""

    def __init__(self):
        self.view = None
        self.problems = []
        self.applied = 0

    def apply(self, msg):
        from reactpy.core.vdom import validate_vdom_json
        try:
            wire = json.loads(json.dumps(msg))
        except (TypeError, ValueError) as e:
            self.problems.append(f"update is not JSON: {e}")
            return
        if wire.get("type") != "layout-update":
            self.problems.append(f"unexpected message {wire!r}")
            return
        self.applied += 1
        path, model = wire["path"], wire["model"]
        if self.view is None and path != "":
            self.problems.append(f"first update addresses {path!r}")
            return
        if path == "":
            self.view = model
            return
        node, parts = self.view, path.split("/")
        if parts[0] != "":
            self.problems.append(f"malformed path {path!r}")
            return
        for p in parts[1:-1]:
            node = self._get(node, p)
        last = parts[-1]
        if isinstance(node, list) and last.isdigit() and int(last) < len(node):
            node[int(last)] = model
        else:
            self.problems.append(f"update path {path!r} does not exist in the client's view")

    @staticmethod
    def _get(node, p):
        if isinstance(node, list):
            return node[int(p)] if p.isdigit() and int(p) < len(node) else None
        if isinstance(node, dict):
            return node.get(p)
        return None


def targets(view, out=None):
    """{(target): (element path)} of every handler displayed."""
    out = [] if out is None else out

    def walk(n, path):
        if isinstance(n, dict):
            for ev, d in (n.get("eventHandlers") or {}).items():
                out.append((path, ev, d["target"]))
            for i, c in enumerate(n.get("children") or []):
                walk(c, path + (i,))
    walk(view, ())
    return out
