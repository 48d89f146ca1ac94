"""C23 (element constructors) and C24 (event handler construction): all accepted argument forms, to a bound."""
from __future__ import annotations

import asyncio
import functools
import itertools
import os
import sys
import time

from mc import space
from mc.report import Check, tier
from mc.space import Result, words

import reactpy
from reactpy import component, event, html as h
from reactpy.core.events import EventHandler, merge_event_handlers
from reactpy.core.layout import Layout
from reactpy.core.vdom import Vdom, validate_vdom_json
from reactpy.types import InlineJavaScript, VdomDict

LOOP = None


def run(coro):
    global LOOP
    if LOOP is None:
        LOOP = asyncio.new_event_loop()
    return LOOP.run_until_complete(coro)


def render(node):
    @component
    def Root():
        return node

    async def go():
        async with Layout(Root()) as layout:
            return await layout.render()
    return run(go())["model"]


# ================================================================ C23

@component
def Comp(x=1):
    return h.i(str(x))


@component
def Keyed(x=1):
    return h.i(str(x))


def handler(e):
    pass


async def ahandler(e):
    pass


EH = EventHandler(lambda data: None, prevent_default=True)

# name -> (value, where it belongs)
ATTRS = {
    "id": ("a", "attributes"), "className": ("c d", "attributes"), "style": ({"color": "red"}, "attributes"), "data-x": (1, "attributes"),
    "tabIndex": (0, "attributes"), "hidden": (True, "attributes"), "title": (None, "attributes"), "disabled": (False, "attributes"),
    "values": ([1, {"a": 2}], "attributes"), "key": ("k", "attributes"), "only": ("text", "attributes"), "onward": ("text", "attributes"),
    "onClick": (handler, "eventHandlers"), "onChange": (ahandler, "eventHandlers"), "onKeyDown": (EH, "eventHandlers"),
    "custom": (handler, "eventHandlers"), "onFocus": ("f()", "inlineJavaScript"), "bind": (InlineJavaScript("g"), "inlineJavaScript"),
    "onBlur": (InlineJavaScript("x => x"), "inlineJavaScript"), "tagName": ("x", "attributes"), "children": ("y", "attributes"),
    "onInput": ("", "inlineJavaScript"), "aonClick": ("z", "attributes"), "onclick": ("h()", "attributes"),
}


def child_forms():
    """name -> (make, expected flat list of tokens)"""
    b = lambda: h.b("x")
    return {
        "text": (lambda: "t", ["t"]), "empty": (lambda: "", [""]), "int": (lambda: 5, [5]), "none": (lambda: None, [None]),
        "float": (lambda: 1.5, [1.5]), "element": (b, [b()]), "list": (lambda: ["l", b()], ["l", b()]), "tuple": (lambda: ("m", 6), ["m", 6]),
        "nested": (lambda: [["n", ["o"]], []], ["n", "o"]), "generator": (lambda: (x for x in "pq"), ["p", "q"]), "empty list": (lambda: [], []),
        "range": (lambda: range(2), [0, 1]), "map": (lambda: map(str, [1, 2]), ["1", "2"]), "component": (lambda: Comp(2), ["COMPONENT"]),
        "list of components": (lambda: [Comp(3), Keyed(4, key="z")], ["COMPONENT", "COMPONENT"]), "fragment": (lambda: h("f"), [h("f")]),
        "dict view": (lambda: {"a": 1}.keys(), ["a"]), "true": (lambda: True, [True]),
    }


FORMS = child_forms()
TAGS = ["div", "a", "input", "my_tag", "del_", "svg", "script", "fragment", "button", "plain"]
NO_CHILDREN = {"input"}


def make(tag):
    if tag == "plain":
        return Vdom("plain")
    return getattr(h, tag)


TAGNAME = {"my_tag": "my-tag", "del_": "del", "fragment": ""}


def snap(v):
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snap(x) for x in v]
    return v if isinstance(v, (str, int, float, type(None))) else "COMPONENT" if hasattr(v, "render") else id(v)


def judge_element(case):
    tag, attrs, kids, form = case
    failures = []
    name = TAGNAME.get(tag, tag)
    given = {k: ATTRS[k][0] for k in attrs}
    kwargs_before = snap(given)
    flat = [x for k in kids for x in FORMS[k][1]]
    children = [FORMS[k][0]() for k in kids]
    if form == "one list":
        call = [children]
    elif form == "one tuple":
        call = [tuple(children)]
    elif form == "generator":
        call = [(c for c in children)]
    else:
        call = list(children)
    reject = None
    if tag in NO_CHILDREN and flat:
        reject = TypeError
    if tag == "fragment" and any(k != "key" for k in given):
        reject = TypeError
    if tag == "script" and (any(ATTRS[k][1] == "eventHandlers" for k in given) or len(flat) > 1 or flat and (not isinstance(flat[0], str) or flat[0] == "COMPONENT")):
        reject = ValueError
    lists_before = snap([c for c in children if isinstance(c, (list, tuple, dict))])
    try:
        got = make(tag)(given, *call) if attrs or form == "attributes" else make(tag)(*call)
    except Exception as e:
        if reject and isinstance(e, reject):
            return Result([], [hash(case)], 1, "rejected")
        return Result([f"{case}: raised {e!r}"], [hash(case)], 1, "raised")
    if reject:
        return Result([f"{case}: accepted: {got}"], [hash(case)], 1, "accepted")
    if snap(given) != kwargs_before:
        failures.append(f"{case}: the attributes that were passed were changed to {given}")
    if snap([c for c in children if isinstance(c, (list, tuple, dict))]) != lists_before:
        failures.append(f"{case}: the children that were passed were changed")
    if type(got) is not VdomDict or got["tagName"] != name:
        failures.append(f"{case}: constructed {got!r}")
    want = {}
    for k in attrs:
        want.setdefault(ATTRS[k][1], {})[k] = ATTRS[k][0]
    if tag == "script" and "key" not in attrs:
        if flat:
            want.setdefault("attributes", {})["key"] = flat[0]
        elif "src" in attrs:
            want.setdefault("attributes", {})["key"] = "a"
    for part in ("attributes", "inlineJavaScript"):
        if got.get(part, {}) != want.get(part, {}):
            failures.append(f"{case}: {part} are {got.get(part)}, expected {want.get(part)}")
        if any(got.get(part, {})[k] is not want[part][k] for k in want.get(part, {}) if part == "attributes" and not isinstance(
                want[part][k], (str, int)) and k in got.get(part, {})):
            failures.append(f"{case}: a value of {part} was replaced")
    if any(type(v) is not InlineJavaScript for v in got.get("inlineJavaScript", {}).values()):
        failures.append(f"{case}: an inline script is not marked")
    hs, wh = got.get("eventHandlers", {}), want.get("eventHandlers", {})
    if list(hs) != list(wh):
        failures.append(f"{case}: event handlers {list(hs)}, expected {list(wh)}")
    for k in wh:
        x = hs.get(k)
        if isinstance(wh[k], EventHandler):
            if x is not wh[k]:
                failures.append(f"{case}: the event handler {k} was replaced")
        elif x is None or not isinstance(x, EventHandler) or unwrapped(x.function) is not wh[k]:
            failures.append(f"{case}: the event handler {k} is {x}")
    if snap(got.get("children", [])) != snap(flat):
        failures.append(f"{case}: children {got.get('children')}, expected {flat}")
    if set(got) - {"tagName", "attributes", "children", "eventHandlers", "inlineJavaScript"} or any(got[k] in ({}, []) for k in got if k != "tagName"):
        failures.append(f"{case}: unexpected or empty parts in {got}")
    # a second element of the same arguments shares nothing with the first
    if not failures and "generator" not in kids and "map" not in kids and form != "generator":
        other = make(tag)(given, *call) if attrs or form == "attributes" else make(tag)(*call)
        before = snap(other)
        for part in ("attributes", "eventHandlers", "inlineJavaScript"):
            got.setdefault(part, {})["mutated"] = 1
        got.setdefault("children", []).append("mutated")
        third = make(tag)(given, *call) if attrs or form == "attributes" else make(tag)(*call)
        if snap(other) != before or not_same(snap(third), before) or snap(given) != kwargs_before or "mutated" in given or \
                snap([c for c in children if isinstance(c, (list, tuple, dict))]) != lists_before:
            failures.append(f"{case}: elements share state: {other} {third}")
    return Result(failures, [hash(case)], 1, hash(str(snap(got))))


def not_same(a, b):
    """Handlers made from functions are made anew each time."""
    def strip(v):
        return {k: (list(x) if k == "eventHandlers" else x) for k, x in v.items()}
    return strip(a) != strip(b)


def unwrapped(f):
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    return f


RENDER_ATTRS = [k for k in ATTRS if k not in ("tagName", "children")]


def judge_rendered(case):
    tag, attrs, kids = case
    given = {k: ATTRS[k][0] for k in attrs}
    node = make(tag)(given, *[FORMS[k][0]() for k in kids])
    want_attrs = dict(node.get("attributes", {}))
    flat = [x for k in kids for x in FORMS[k][1] if x is not None]
    model = render(node)
    failures = []
    try:
        validate_vdom_json(model)
    except Exception as e:
        failures.append(f"{case}: {e}: {model}")
    got = model["children"][0] if model.get("children") else {}
    if got.get("tagName") != TAGNAME.get(tag, tag) or "error" in model:
        failures.append(f"{case}: rendered as {model}")
    else:
        if got.get("attributes", {}) != want_attrs:
            failures.append(f"{case}: rendered attributes {got.get('attributes')}, expected {want_attrs}")
        if dict(got.get("inlineJavaScript", {})) != dict(node.get("inlineJavaScript", {})):
            failures.append(f"{case}: rendered inline scripts {got.get('inlineJavaScript')}")
        if set(got.get("eventHandlers", {})) != set(node.get("eventHandlers", {})):
            failures.append(f"{case}: rendered handlers {got.get('eventHandlers')}")
        for k, v in got.get("eventHandlers", {}).items():
            if v.get("preventDefault") is not (k == "onKeyDown") or v.get("stopPropagation") is not False:
                failures.append(f"{case}: rendered handler {k} as {v}")
        shown = [c["children"][0]["tagName"] if isinstance(c, dict) and c["tagName"] == "" and c.get("children") and isinstance(c["children"][0], dict)
                 else c["tagName"] if isinstance(c, dict) else c for c in got.get("children", [])]
        expect = ["i" if x == "COMPONENT" else x["tagName"] if isinstance(x, dict) else str(x) for x in flat]
        if shown != expect:
            failures.append(f"{case}: rendered children {shown}, expected {expect}")
    return Result(failures, [hash(case)], 1, hash(str(got.get("children"))))


def elements(n_attrs, n_kids):
    for tag in TAGS:
        for r in range(n_attrs + 1):
            for attrs in itertools.combinations(ATTRS, r):
                yield tag, attrs, (), "attributes"
                yield tag, attrs, ("text",), "plain"
                if r:
                    yield tag, tuple(reversed(attrs)), ("element", "list"), "plain"
        for kids in words(list(FORMS), 0, n_kids):
            for form in ("plain", "attributes", "one list", "one tuple", "generator"):
                if form != "plain" or not attrs_like(kids):
                    yield tag, (), kids, form
            yield tag, ("key", "id") if tag != "fragment" else ("key",), kids, "plain"


def attrs_like(kids):
    return False


def rendered(n_attrs, n_kids):
    for tag in ("div", "my_tag", "button"):
        for r in range(n_attrs + 1):
            for attrs in itertools.combinations(RENDER_ATTRS, r):
                yield tag, attrs, ("text",)
        for kids in words(list(FORMS), 0, n_kids):
            if kids.count("list of components") < 2:  # keys must be unique
                yield tag, ("id",), kids


# constructors made by users and for JavaScript components

SOURCE = {"source": "/m.js", "sourceType": "URL", "fallback": "wait"}


def judge_ctor(case):
    allow, custom, source, path, attrs, kids = case
    calls, failures = [], []

    def build(*, children, attributes, event_handlers):
        calls.append((list(children), dict(attributes), list(event_handlers)))
        return {"children": children, "attributes": {**attributes, "own": 1}}
    ctor = Vdom("thing", allow_children=allow, custom_constructor=build if custom else None, import_source=SOURCE if source else None)
    for part in path:
        try:
            ctor = getattr(ctor, part)
        except AttributeError:
            if not source:
                return Result([], [hash(case)], 1, "no attribute")
            raise
    if path and not source:
        return Result([f"{case}: an element which is not a JavaScript component has parts"], [hash(case)], 1, "attribute")
    given = {k: ATTRS[k][0] for k in attrs}
    flat = [x for k in kids for x in FORMS[k][1]]
    try:
        got = ctor(given, *[FORMS[k][0]() for k in kids])
    except TypeError as e:
        return Result([f"{case}: raised {e!r}"] if allow or not flat else [], [hash(case)], 1, "rejected")
    if flat and not allow:
        failures.append(f"{case}: children were accepted: {got}")
    want = {"tagName": ".".join(("thing", *path))}
    for k in attrs:
        want.setdefault(ATTRS[k][1], {})[k] = ATTRS[k][0]
    if custom and not path:
        if len(calls) != 1 or snap(calls[0]) != snap([flat, want.get("attributes", {}), list(want.get("eventHandlers", {}))]):
            failures.append(f"{case}: the custom constructor was called with {calls}")
        want.setdefault("attributes", {})["own"] = 1
        want.pop("eventHandlers", None)
        want["children"] = flat
    elif flat:
        want["children"] = flat
    if source and not (custom and not path):
        want["importSource"] = SOURCE
    strip = lambda v: {k: list(x) if k == "eventHandlers" else x for k, x in snap(v).items()}
    if strip(got) != strip(want):
        failures.append(f"{case}: constructed {got}, expected {want}")
    return Result(failures, [hash(case)], 1, hash(str(strip(got))))


def constructors(n):
    for allow in (True, False):
        for custom in (True, False):
            for source in (True, False):
                for path in ((), ("Part",), ("Part", "Inner")):
                    for r in range(n + 1):
                        for attrs in itertools.combinations(ATTRS, r):
                            for kids in words(("text", "element", "list", "empty", "none", "empty list", "nested", "component"), 0, 2):
                                yield allow, custom, source, path, attrs, kids


# every constructor of the package

def judge_name(name):
    failures = []
    space_, attr = name
    ctor = getattr(space_ and h.svg or h, attr)
    tag = attr.rstrip("_").replace("_", "-")
    tag = "" if tag == "fragment" else tag
    got = ctor()
    if got != {"tagName": tag} or type(got) is not VdomDict:
        failures.append(f"html.{attr}() is {got}")
    if getattr(space_ and h.svg or h, attr) is not ctor and getattr(space_ and h.svg or h, attr)() != got:
        failures.append(f"html.{attr} differs when it is used again")
    void = tag in VOID if not space_ else None
    try:
        got = ctor("x")
        if void:
            failures.append(f"html.{attr} accepts children: {got}")
        elif {k: v for k, v in got.items() if k != "attributes"} != {"tagName": tag, "children": ["x"]}:
            failures.append(f"html.{attr}('x') is {got}")
    except TypeError as e:
        if void is False:
            failures.append(f"html.{attr} does not accept children: {e}")
    return Result(failures, [hash(name)], 2, attr)


VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr", "iframe", "keygen",
        "command", "portal"}


def names():
    from reactpy._html import HtmlConstructor, SvgConstructor
    for n in sorted({*HtmlConstructor.__annotations__, *VOID, "x_y_z", "menuitem", "custom"} - {"__cache__"}):
        yield "", n
    for n in sorted(set(SvgConstructor.__annotations__) - {"__cache__"}):
        yield "svg", n


# ================================================================ C24

STATEMENTS = {
    "pass": ("pass", None), "prevent": ("{e}.preventDefault()", "p"), "stop": ("{e}.stopPropagation()", "s"),
    "other prevent": ("other.preventDefault()", None), "other stop": ("other.stopPropagation()", None),
    "target": ("{e}.target and {e}.target.preventDefault()", None), "pass on": ("other.use({e})", None),
    "mixed": ("other.use({e}, other.preventDefault())", None), "closure": ("other.keep(lambda: {e})", None),
    "string": ("other.use('{e}.preventDefault()')", None), "names": (";".join(f"other.n{i}" for i in range(150)), None),
    "with": ("with other: {e}.preventDefault()", "p"), "comprehension": ("other.use([{e} for _ in ()])", None),
    "assign": ("y = {e}.preventDefault()", "p"), "in call": ("other.use({e}.stopPropagation())", "s"),
    "nested": ("other.keep(lambda x: x.preventDefault())", None),
    "debounce": ("{e}.debounce = 50", "d"),
}


class Other:
    def __init__(self):
        self.kept = []

    def use(self, *a):
        pass

    keep = use

    def preventDefault(self):
        pass

    stopPropagation = preventDefault

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith("n"):
            return 0
        raise AttributeError(n)


PARAMS = ["{e}", "{e}, x=7", "{e}, *, k=3", "{e}, *rest", "{e}=None"]
KINDS = ["def", "async def", "method", "async method", "classmethod", "staticmethod", "callable", "async callable", "partial", "async partial",
         "partial first", "async partial first", "partial keyword", "partial method", "wrapped", "async wrapped", "wrapped method", "lambda",
         "returns coroutine", "partial of callable", "partial of async callable", "partial returns coroutine"]
SOURCES = {}


def build(kind, params, body, ename="event"):
    """-> (callable, log): calling it appends (arguments) to log."""
    log = []
    other = Other()
    lines = [STATEMENTS[s][0].format(e=ename) for s in body]
    p = params.format(e=ename)
    names_ = [x.strip().lstrip("*").split("=")[0] for x in p.split(",") if x.strip() != "*"]
    record = "log.append((" + "".join(f"{n}, " for n in names_) + "))"
    extra = "extra, " if kind in ("partial first", "async partial first", "partial of callable") else ""
    kw = ", *, kw" if kind == "partial keyword" and "*" not in p else ", kw" if kind == "partial keyword" and "*, k" in p else ""
    is_async = kind.startswith("async") or kind.endswith("returns coroutine") or "of async" in kind
    tail = "\n    ".join(lines + (["await sleep(0)"] if is_async else []) + [record])
    head = "async def" if is_async else "def"
    self_ = "self, " if kind in ("method", "async method", "callable", "async callable", "partial method", "wrapped method", "partial of callable",
                                    "partial of async callable") else \
        "cls, " if kind == "classmethod" else ""
    src = f"{head} f({self_}{extra}{p}{kw}):\n    {tail}\n"
    ns = {"log": log, "other": other, "sleep": asyncio.sleep}
    code = SOURCES.get(src)
    if code is None:
        code = SOURCES[src] = compile(src, "<case>", "exec")
    exec(code, ns)
    f = ns["f"]

    return as_kind(kind, f, p), log


def as_kind(kind, f, p="{e}"):
    def wrap(g):
        @functools.wraps(g)
        def inner(*args, **kw):
            return g(*args, **kw)
        return inner
    if kind in ("def", "async def"):
        return f
    if kind in ("method", "async method"):
        return type("C", (), {"m": f})().m
    if kind == "classmethod":
        return type("C", (), {"m": classmethod(f)}).m
    if kind == "staticmethod":
        return type("C", (), {"m": staticmethod(f)})().m
    if kind in ("callable", "async callable"):
        return type("C", (), {"__call__": f})()
    if kind in ("partial", "async partial"):
        return functools.partial(f)
    if kind in ("partial first", "async partial first"):
        return functools.partial(f, "first")
    if kind == "partial keyword":
        return functools.partial(f, kw=1)
    if kind == "partial method":
        return functools.partial(type("C", (), {"m": f})().m)
    if kind == "partial of callable":
        return functools.partial(type("C", (), {"__call__": f})(), "first")
    if kind == "partial of async callable":
        return functools.partial(type("C", (), {"__call__": f})())
    if kind == "wrapped":
        return wrap(wrap(f))
    if kind == "async wrapped":
        return wrap(f)
    if kind == "wrapped method":
        return type("C", (), {"m": wrap(f)})().m
    if kind == "lambda":
        return eval(f"lambda {p}: f({', '.join(('*' if x.strip().startswith('*') else '') + x.strip().lstrip('*').split('=')[0] if 'k=' not in x else 'k=k' for x in p.split(',') if x.strip() != '*')})",
                    {"f": f})
    if kind == "returns coroutine":
        return eval("lambda *a: f(*a)", {"f": f})
    if kind == "partial returns coroutine":
        return functools.partial(eval("lambda *a: f(*a)", {"f": f}))
    raise AssertionError(kind)


def judge_handler(case):
    kind, params, body, how, (opt_p, opt_s), ename = case
    if kind == "partial keyword" and "*rest" in params:
        params = PARAMS[0]
    try:
        func, log = build(kind, params, body, ename)
    except SyntaxError:
        raise
    flags = {STATEMENTS[s][1] for s in body}
    visible = kind not in ("lambda", "returns coroutine", "partial returns coroutine")
    want_p = opt_p or (visible and "p" in flags)
    want_s = opt_s or (visible and "s" in flags)
    failures = []
    if how == "event":
        eh = event(func, prevent_default=opt_p, stop_propagation=opt_s)
    elif how == "decorator":
        eh = event(prevent_default=opt_p, stop_propagation=opt_s)(func)
    elif how == "direct":
        eh = EventHandler(functools_list(func, kind), prevent_default=opt_p, stop_propagation=opt_s)
    else:
        eh = h.button({"onClick": func})["eventHandlers"]["onClick"]
    if bool(eh.prevent_default) is not want_p or bool(eh.stop_propagation) is not want_s:
        failures.append(f"{case}: prevent_default={eh.prevent_default} stop_propagation={eh.stop_propagation}, expected {want_p} {want_s}")
    # deliver an event through a layout
    seen = []

    async def go():
        @component
        def Root():
            return h.button({"onClick": eh})
        async with Layout(Root()) as layout:
            model = (await layout.render())["model"]["children"][0]["eventHandlers"]["onClick"]
            seen.append((model["preventDefault"], model["stopPropagation"]))
            await layout.deliver({"type": "layout-event", "target": model["target"], "data": [{"a": 1, "target": {"value": "v"}}]})
            for _ in range(12):
                await asyncio.sleep(0)
                if log:
                    break
    run(go())
    if seen != [(want_p, want_s)]:
        failures.append(f"{case}: rendered flags {seen}, expected {(want_p, want_s)}")
    data = {"a": 1, "target": {"value": "v"}}
    if "d" in flags and log:
        data = {**data}
    if len(log) != 1:
        failures.append(f"{case}: the handler ran {len(log)} times")
    else:
        got = log[0]
        shape = [dict(x) if isinstance(x, dict) else x for x in got]
        rest = {PARAMS[0]: [], PARAMS[1]: [7], PARAMS[2]: [3], PARAMS[3]: [()], PARAMS[4]: []}[params]
        first = {k: v for k, v in shape[0].items() if k != "debounce"} if isinstance(shape[0], dict) else shape[0]
        if first != data or shape[1:] != rest:
            failures.append(f"{case}: the handler was called with {got}")
    return Result(failures, [hash(case)], 3, (want_p, want_s, kind))


def functools_list(func, kind):
    """EventHandler() takes a function of the list of arguments; here it is a wrapper which declares what it wraps."""
    if "async" in kind or kind.endswith("returns coroutine"):
        async def wrapper(data):
            await func(*data)
    else:
        def wrapper(data):
            func(*data)
    wrapper.__wrapped__ = func
    return wrapper


def handlers(q):
    flags = [(False, False), (True, False), (False, True), (True, True)]
    for kind in KINDS:
        for params in PARAMS:
            for body in words(list(STATEMENTS), 1, 1):
                for how in ("event", "decorator", "attribute", "direct"):
                    for f in (flags if how != "attribute" else flags[:1]):
                        yield kind, params, body, how, f, "event"
    for kind in KINDS:
        for body in words(list(STATEMENTS), 2, 3):
            yield kind, PARAMS[0], body, "attribute", (False, False), "e"


def judge_builtin(case):
    name, f = case
    failures = []
    values = []
    func = {"append": values.append, "print": lambda *a: print, "class": type("K", (), {"__init__": lambda self, x: values.append(x)}),
            "setter": reactpy.Ref(None).set_current, "partial builtin": functools.partial(values.append), "dict.update": {}.update,
            "mock": __import__("unittest.mock").mock.MagicMock(), "itemgetter": __import__("operator").itemgetter("a")}[name]
    try:
        eh = event(func) if f else h.button({"onClick": func})["eventHandlers"]["onClick"]
        run(eh.function([{"a": 1}]))
        if (eh.prevent_default, eh.stop_propagation) != (False, False):
            failures.append(f"{case}: flags are on")
        if name in ("append", "class", "partial builtin") and values != [{"a": 1}]:
            failures.append(f"{case}: received {values}")
        if name == "mock" and func.call_args_list != [(({"a": 1},),)]:
            failures.append(f"{case}: received {func.call_args_list}")
    except Exception as e:
        failures.append(f"{case}: {e!r}")
    return Result(failures, [hash(case)], 1, name)


ARGS = [(), (1,), (1, 2), ({"a": 1}, "x", None)]


def judge_args(case):
    kind, args = case
    got = []
    if kind == "plain":
        eh = event(lambda *a: got.append(a))
    elif kind == "async":
        async def f(*a):
            await asyncio.sleep(0)
            got.append(a)
        eh = event(f)
    elif kind == "attribute":
        eh = h.p({"onX": lambda *a: got.append(a)})["eventHandlers"]["onX"]
    elif kind == "list":
        eh = EventHandler(lambda data: got.append(tuple(data)))
    else:
        async def g(data):
            await asyncio.sleep(0)
            got.append(tuple(data))
        eh = EventHandler(g)
    run(eh.function(list(args)))
    return Result([] if got == [args] else [f"{case}: received {got}"], [hash(str(case))], 1, kind)


# how a body limits the rate: statement, parameters after the event, the rate that is known beforehand
RATES = {
    "literal": ("{e}.debounce = 50", "", 50), "zero": ("{e}.debounce = 0", "", 0), "large": ("{e}.debounce = 70000", "", 70000),
    "folded": ("{e}.debounce = 2 * 30", "", 60), "default": ("{e}.debounce = x", ", x=7", 7),
    "second default": ("{e}.debounce = y", ", x=7, y=8", 8), "keyword default": ("{e}.debounce = k", ", *, k=3", 3),
    "default before keyword": ("{e}.debounce = x", ", x=7, *, k=3", 7), "keyword after default": ("{e}.debounce = k", ", x=7, *, j=9, k=3", 3),
    "default before rest": ("{e}.debounce = x", ", x=7, *rest", 7), "first default of two": ("{e}.debounce = x", ", x=7, y=8", 7),
    "captured": ("{e}.debounce = cap", "", 450), "captured and used": ("other.use(cap); {e}.debounce = cap", "", 450),
    "after names": (";".join(f"other.n{i}" for i in range(150)) + "; {e}.debounce = 50", "", 50),
    "with prevent": ("{e}.preventDefault(); {e}.debounce = 50", "", 50), "before stop": ("{e}.debounce = x; {e}.stopPropagation()", ", x=7", 7),
    "nested reader": ("other.keep(lambda: {e}); {e}.debounce = 50", "", 50),
    "in a branch": ("\n        if other: {e}.debounce = 50", "", 50),
    "global": ("{e}.debounce = GLOBAL", "", None), "local": ("z = 5; {e}.debounce = z", "", None), "call": ("{e}.debounce = other.rate(5)", "", None),
    "condition": ("{e}.debounce = 40 if other.n1 else 60; z = other.n1; other.use(z)", "", None), "or": ("{e}.debounce = other.n1 or 60", "", None),
    "and": ("{e}.debounce = other.n1 and 60", "", None), "condition default": ("{e}.debounce = 40 if other.n1 else x; z = other.n1; other.use(z)", ", x=7", None),
    "condition captured": ("{e}.debounce = 40 if other.n1 else cap; z = other.n1; other.use(z)", "", None),
    "bool": ("{e}.debounce = True", "", None), "float": ("{e}.debounce = 1.5", "", None), "none": ("{e}.debounce = None", "", None),
    "text default": ("{e}.debounce = x", ", x='7'", None), "bool default": ("{e}.debounce = x", ", x=True", None),
    "attribute": ("{e}.debounce = other.n1", "", None), "sum": ("{e}.debounce = other.n1 + 5", "", None),
    "of another": ("other.debounce = 50", "", None), "of a part": ("{e}.target.debounce = 50", "", None), "of a result": ("other.use({e}).debounce = 50", "", None),
    "other name": ("{e}.bounce = 50", "", None), "text": ("other.use('{e}.debounce = 50')", "", None),
    "unknown first": ("\n        if other: {e}.debounce = other.n1\n        else: {e}.debounce = 5", "", None),
    "tuple": ("{e}.debounce, z = 5, other.n1", "", None), "changed": ("{e}.debounce = other.n1; z = 5", "", None),
    "read": ("other.use(getattr({e}, 'debounce', 50))", "", None), "nothing": ("pass", "", None),
}
RATE_KINDS = ["def", "async def", "method", "classmethod", "staticmethod", "callable", "partial", "partial first", "partial method", "wrapped", "wrapped method",
              "partial of callable", "partial of async callable", "async wrapped"]


def rated(kind, rate, ename):
    stmt, params, want = RATES[rate]
    first = {"method": "self, ", "callable": "self, ", "partial method": "self, ", "wrapped method": "self, ", "partial of async callable": "self, ",
             "partial of callable": "self, extra, ", "classmethod": "cls, ", "partial first": "extra, "}.get(kind, "")
    head = "async def" if "async" in kind else "def"
    src = f"def outer(first, cap, last):\n    {head} f({first}{ename}{params}):\n        keep = (first, last); {stmt.format(e=ename) if not stmt.startswith(chr(10)) else 'pass' + stmt.format(e=ename)}\n    return f\n"
    ns = {"GLOBAL": 90, "other": Other()}
    exec(compile(src, "<case>", "exec"), ns)
    return as_kind(kind, ns["outer"](100, 450, 999)), want


def judge_rate(case):
    kind, rate, how, (debounce, throttle, prevent), ename = case
    func, want = rated(kind, rate, ename)
    options = {"debounce": debounce, "throttle": throttle, "prevent_default": prevent}
    if how == "event":
        eh = event(func, **options)
    elif how == "decorator":
        eh = event(**options)(func)
    elif how == "direct":
        eh = EventHandler(functools_list(func, kind), **options)
    else:
        eh = h.button({"onClick": func})["eventHandlers"]["onClick"]
    want = debounce if want is None else want
    prevent = prevent or "prevent" in rate
    stop = "stop" in rate
    failures = []
    if (eh.debounce, eh.throttle, eh.prevent_default, eh.stop_propagation) != (want, throttle, prevent, stop) or isinstance(eh.debounce, bool):
        failures.append(f"{case}: debounce={eh.debounce!r} throttle={eh.throttle!r} prevent_default={eh.prevent_default!r} stop_propagation={eh.stop_propagation!r}, "
                        f"expected {(want, throttle, prevent, stop)}")
    seen = []

    async def go():
        @component
        def Root():
            return h.button({"onClick": eh})
        async with Layout(Root()) as layout:
            seen.append((await layout.render())["model"]["children"][0]["eventHandlers"]["onClick"])
    run(go())
    m = {k: v for k, v in seen[0].items() if k != "target"}
    expect = {"preventDefault": prevent, "stopPropagation": stop, **({"debounce": want} if want is not None else {}), **({"throttle": throttle} if throttle is not None else {})}
    if m != expect:
        failures.append(f"{case}: rendered as {m}, expected {expect}")
    return Result(failures, [hash(case)], 2, (want, throttle, prevent))


def rates(q):
    for rate in RATES:
        for kind in RATE_KINDS:
            yield kind, rate, "attribute", (None, None, False), "event"
            for how in ("event", "decorator", "direct"):
                for o in itertools.product((None, 300, 0), (None, 100, 0), (False, True)):
                    yield kind, rate, how, o, "e"


# callables without a parameter for the event
BARE = {
    "local": ("def f(): x = other; x.preventDefault(); x.stopPropagation(); x.debounce = 5; log.append(())", []),
    "rest": ("def f(*rest): x = other; x.preventDefault(); rest.index; log.append(rest)", []),
    "keyword": ("def f(*, e=other): e.preventDefault(); e.stopPropagation(); e.debounce = 5; log.append(())", []),
    "async": ("async def f(): x = other; x.preventDefault(); log.append(())", []),
    "method": ("def f(self): x = other; self.preventDefault(); x.stopPropagation(); log.append(())", "method"),
    "bound": ("def f(a): x = other; a.preventDefault(); x.stopPropagation(); log.append(())", "partial"),
}


def judge_bare(case):
    name, how = case
    src, kind = BARE[name]
    log = []
    ns = {"other": Other(), "log": log}
    exec(src, ns)
    f = ns["f"]
    func = type("C", (Other,), {"m": f})().m if kind == "method" else functools.partial(f, Other()) if kind == "partial" else f
    eh = event(func) if how else h.button({"onClick": func})["eventHandlers"]["onClick"]
    run(eh.function([]))
    failures = []
    if (eh.prevent_default, eh.stop_propagation, eh.debounce) != (False, False, None):
        failures.append(f"{case}: there is no event to call, but {eh}")
    if log != [()]:
        failures.append(f"{case}: called with {log}")
    return Result(failures, [hash(case)], 1, name)


MERGE = [(k, p, s, t) for k in ("def", "async def", "raise") for p, s in ((False, False), (True, False), (True, True)) for t in (None, "t")]
LIMITS = [(None, None), (0, None), (200, None), (None, 0), (None, 100), (200, 100)]


def judge_merge(case):
    hs, log = [], []
    for i, (k, p, s, t) in enumerate(case):
        if k == "def":
            def f(data, i=i):
                log.append((i, data))
        elif k == "raise":
            def f(data, i=i):
                log.append((i, data))
        else:
            async def f(data, i=i):
                await asyncio.sleep(0)
                log.append((i, data))
        hs.append(EventHandler(f, prevent_default=p, stop_propagation=s, target=t))
    before = [(x.function, x.prevent_default, x.stop_propagation, x.target) for x in hs]
    failures = []
    same = len({x[1:] for x in case}) <= 1
    try:
        m = merge_event_handlers(hs)
    except ValueError as e:
        if same and case:
            failures.append(f"{case}: refused: {e}")
        return Result(failures, [hash(case)], 1, "refused")
    if not case:
        return Result([f"merging nothing gave {m}"], [0], 1, "nothing")
    if not same:
        failures.append(f"{case}: handlers with conflicting flags were merged to {m}")
    elif (m.prevent_default, m.stop_propagation, m.target) != case[0][1:]:
        failures.append(f"{case}: the merged handler is {m}")
    if before != [(x.function, x.prevent_default, x.stop_propagation, x.target) for x in hs]:
        failures.append(f"{case}: the merged handlers were changed")
    data = [{"a": 1}, 2]
    run(m.function(data))
    if sorted(x[0] for x in log) != list(range(len(case))) or any(x[1] != [{"a": 1}, 2] for x in log):
        failures.append(f"{case}: merged handlers ran {log}")
    return Result(failures, [hash(case)], 1, same)


def judge_merge_rates(case):
    limits, waits = case
    log = []
    order = []

    async def go():
        turns = [asyncio.get_running_loop().create_future() for _ in limits]
        hs = []
        for i, (d, t) in enumerate(limits):
            async def f(data, i=i):
                log.append(i)
                if waits == "forward" and i + 1 < len(limits):
                    await turns[i + 1]
                if waits == "backward" and i:
                    await turns[i - 1]
                turns[i].set_result(None)
            hs.append(EventHandler(f, debounce=d, throttle=t))
        try:
            m = merge_event_handlers(hs)
        except ValueError:
            return "refused"
        try:
            await asyncio.wait_for(m.function([1]), 0.5 if waits else None)
        except asyncio.TimeoutError:
            order.append("blocked")
        return m.debounce, m.throttle
    got = run(go())
    want = limits[0] if len(set(limits)) == 1 else "refused"
    failures = []
    if got != want:
        failures.append(f"{case}: merging gave {got}, expected {want}")
    if want != "refused" and (sorted(log) != list(range(len(limits))) or order):
        failures.append(f"{case}: merged handlers ran {log} {order}")
    return Result(failures, [hash(case)], 1, want)


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    q = tier() == "quick"
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800))
    import warnings
    warnings.simplefilter("ignore")
    if prop == "C23":
        groups = [("constructed", lambda: elements(3 if q else 4, 3), judge_element),
                  ("rendered", lambda: rendered(3, 3 if q else 4), judge_rendered),
                  ("named constructors", names, judge_name),
                  ("other constructors", lambda: constructors(1 if q else 2), judge_ctor)]
        rule = "case = one call of an element constructor; state = its arguments, transition = construction (and rendering)"
        bound = "10 constructors with at most 3 (thorough 4) of 24 attribute kinds; at most 3 of 18 child forms in 5 notations; every named constructor; own constructors"
    else:
        groups = [("handlers", lambda: handlers(q), judge_handler),
                  ("bodies and parameters", lambda: () if q else ((k, p, b, how, f, "e") for k in KINDS for p in PARAMS for b in words(
                      list(STATEMENTS), 2, 2) for how in ("event", "direct") for f in ((False, False), (True, False))), judge_handler),
                  ("builtins", lambda: itertools.product(("append", "print", "class", "setter", "partial builtin", "dict.update", "mock", "itemgetter"), (0, 1)), judge_builtin),
                  ("arguments", lambda: itertools.product(("plain", "async", "attribute", "list", "async list"), ARGS), judge_args),
                  ("rates", lambda: rates(q), judge_rate),
                  ("no parameter", lambda: itertools.product(BARE, (0, 1)), judge_bare),
                  ("merging", lambda: words(MERGE, 0, 3), judge_merge),
                  ("merging rates", lambda: itertools.product(words(LIMITS, 1, 3), ("", "forward", "backward")), judge_merge_rates)]
        rule = "case = one way to build an event handler; state = its source and options, transition = construction, rendering or call"
        bound = "22 callable kinds x 5 parameter lists x 17 bodies x 13 option forms; all bodies of at most 3 statements; all merges of at most 3 of 18 handlers"
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per, rule, bound, ["calls on the event under a condition are not judged"])
    chk.done()


if __name__ == "__main__":
    main()
