"""C32: widgets and testing helpers.

linked    every history of edits on use_linked_inputs, compared with one common value
image     every form of image data and attributes
paths     every dotted path over a small package, with every kind of failure
swap      every schedule (to a bound) of swaps, mounts and renders of the component container of the test fixtures
logs      every bounded nesting of log captures, log assertions, listings, records and exceptions
poll      every bounded sequence of polled values, under a virtual clock
catch     every bounded history of hook catchers and static handlers
"""
from __future__ import annotations

import base64
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile
import time
from contextlib import contextmanager

from reactpy import component, config, html, widgets
from reactpy.core import hooks as core_hooks
from reactpy.core._life_cycle_hook import HOOK_STACK
from reactpy.core.hooks import use_state
from reactpy.core.layout import Layout
from reactpy.logging import ROOT_LOGGER
from reactpy.testing import HookCatcher, StaticEventHandler, poll
from reactpy.testing import logs as tlogs
from reactpy.testing import backend
from reactpy.testing.backend import _hotswap
from reactpy.utils import import_dotted_path

from checks.c_hist import Session, configure
from mc import explore, space
from mc.app import Client, norm, targets
from mc.explore import Actor, Harness
from mc.loop import MCLoop, OrderedSet
from mc.report import Check, known_findings, tier
from mc.space import Result, words

KNOWN = {k["id"]: k["entry"] for k in known_findings("C32")}


# ---------------------------------------------------------------- linked inputs
ATTRS = [{"id": "i0"}, {"id": "i1", "type": "number", "key": "k"}, {"id": "i2", "className": "c", "value": "mine", "onBlur": print}]
CASTS = {"same": lambda v: v, "int": int, "len": len}


def judge_linked(case):
    mode, n, cast, ignore_empty, initial, history = case
    configure(mode)
    got, want, box = [], [], {}
    given = [dict(a) for a in ATTRS[:n]]

    @component
    def Root():
        box["n"], box["set_n"] = use_state(0)
        kw = {} if cast == "same" else {"cast": CASTS[cast]}
        if initial is not None:
            kw["initial_value"] = initial
        if ignore_empty is not None:
            kw["ignore_empty"] = ignore_empty
        return html.div(widgets.use_linked_inputs(given, got.append, **kw))

    bad, value, steps = [], initial or "", 0
    with Session(Root()) as s:
        for op in history:
            if op == "render":
                box["set_n"](lambda k: k + 1)
                s.settle()
            elif op is not None:
                # several edits at once: each is given in order
                for i, v in op:
                    t = {p: x for p, e, x in targets(s.client.view) if e == "onChange"}
                    s.loop.create_task(s.layout.deliver({"type": "layout-event", "target": t[min(t) if len(t) == 1 else sorted(t)[i % n]],
                                                         "data": [{"target": {"value": v}}]}))
                    value = v
                    if v or ignore_empty is False:
                        try:
                            want.append(CASTS[cast](v))
                        except ValueError:
                            pass
                s.settle()
            steps += 1
            inputs = flat_inputs(s.client.view)
            if op not in (None, "render") and len({i for i, _ in op}) > 1:
                # edits of different inputs at the same time may be handled in any order
                last = dict(op)
                value = next((v for v in last.values() if inputs and inputs[0]["attributes"].get("value") == v), value)
                k = len(op)
                if sorted(map(repr, got[-k:])) == sorted(map(repr, want[-k:])):
                    want[-k:] = got[-k:]
            if [x["attributes"].get("value") for x in inputs] != [value] * n:
                bad.append(f"after {op!r} the inputs show {[x['attributes'].get('value') for x in inputs]}, the common value is {value!r}")
            if got != want:
                bad.append(f"after {op!r} the callback got {got}, expected {want}")
            for a, x in zip(ATTRS, inputs):
                plain = {k: v for k, v in a.items() if not callable(v) and k not in ("key", "value")}
                if {k: v for k, v in x["attributes"].items() if k not in ("value", "key")} != plain:
                    bad.append(f"an input has {x['attributes']}, its attributes are {a}")
                if sorted(x.get("eventHandlers", {})) != sorted({"onChange"} | {k for k, v in a.items() if callable(v)}):
                    bad.append(f"an input has handlers {sorted(x.get('eventHandlers', {}))}, its attributes are {a}")
            if given != [dict(a) for a in ATTRS[:n]]:
                bad.append(f"the given attributes were changed to {given}")
            if bad:
                break
    r = Result(bad[:2], [hash((repr(got), value))], steps, hash((repr(got), value)))
    return r


def flat_inputs(node):
    out = []
    if isinstance(node, dict):
        if node.get("tagName") == "input":
            out.append(node)
        for c in node.get("children", []):
            out += flat_inputs(c)
    return out


def linked_cases(q):
    values = ["", "1", "a", "12"]
    for mode in ("async", "serial"):
        for n in (1, 2, 3):
            edits = [((i, v),) for i in range(min(n, 2 if q else 3)) for v in values]
            bursts = [((0, "1"), (n - 1, "2")), ((0, "x"), (0, "")), ((0, ""), (n - 1, "3"), (0, "4"))]
            for cast in CASTS:
                for ignore in (None, True, False):
                    for initial in (None, "", "x"):
                        for h in words(edits + bursts + ["render"], 1, 2 if q else 3):
                            yield mode, n, cast, ignore, initial, (None,) + h


# ---------------------------------------------------------------- image
def judge_image(case):
    fmt, value, attrs = case
    before = dict(attrs) if attrs is not None else None
    img = widgets.image(fmt, value, attrs) if attrs is not None else widgets.image(fmt, value)
    bad = []
    data = value.encode() if isinstance(value, str) else value
    src = (attrs or {}).get("src", "data:image/" + {"svg": "svg+xml"}.get(fmt, fmt) + ";base64," + base64.b64encode(data).decode())
    config.REACTPY_DEBUG.current = True
    configure("serial", True)

    @component
    def Root():
        return html.div(img)
    with Session(Root()) as s:
        view = s.client.view
        nodes = [view]
        while nodes and not (isinstance(nodes[0], dict) and nodes[0].get("tagName") == "img"):
            x = nodes.pop(0)
            nodes += x.get("children", []) if isinstance(x, dict) else []
        if not nodes:
            bad.append(f"no image is displayed: {view}")
        else:
            x = nodes[0]
            a = dict(x.get("attributes") or {})
            a.pop("key", None)
            want = {k: v for k, v in (attrs or {}).items() if not callable(v) and k != "key"}
            want["src"] = src
            if a != want:
                bad.append(f"the image has attributes {a}, expected {want}")
            if sorted(x.get("eventHandlers") or {}) != sorted(k for k, v in (attrs or {}).items() if callable(v)):
                bad.append(f"the image has handlers {x.get('eventHandlers')}")
            try:
                json.dumps(view)
            except TypeError as e:
                bad.append(f"the image cannot be sent: {e}")
    if attrs != before:
        bad.append("the given attributes were changed")
    configure("serial", False)
    return Result([f"{b}" for b in bad], [hash(src)], 1, hash(src))


def image_cases():
    values = ["", "<svg/>", "ü😀", b"", b"\x00\xff\xfe", bytes(range(256)), b"abc", b"ab", b"a", "a\nb" * 50]
    attrs = [None, {}, {"id": "x"}, {"onClick": print}, {"id": "x", "onLoad": print, "key": "k"}, {"src": "mine"}, {"style": {"a": 1}, "alt": "ü"}]
    return itertools.product(["svg", "png", "jpeg", "svg+xml"], values, attrs)


# ---------------------------------------------------------------- import paths
PACKAGE = {
    "vp_pkg/__init__.py": "value = 1\nfalse = False\nnone = None\nfrom vp_pkg import sub\n",
    "vp_pkg/sub.py": "class C:\n    attr = 2\ndef f(): pass\nzero = 0\n",
    "vp_pkg/bad_import.py": "import vp_missing_thing\n",
    "vp_pkg/bad_name.py": "1/0\n",
    "vp_pkg/nested/__init__.py": "",
    "vp_pkg/nested/deep.py": "deep = 'deep'\n",
    "vp_pkg/lazy.py": "def __getattr__(name):\n    if name == 'dyn': return 'dynamic'\n    raise AttributeError(name)\n",
}
NAMES = ["vp_pkg", "sub", "value", "C", "attr", "missing", "bad_import", "nested", "deep", "lazy", "dyn", "", "none", "zero", "f"]


def setup_package():
    d = tempfile.mkdtemp(prefix="verif-pkg-")
    for f, text in PACKAGE.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "w") as fh:
            fh.write(text)
    sys.path.insert(0, d)
    return d


MODULES = {"vp_pkg", "vp_pkg.sub", "vp_pkg.bad_import", "vp_pkg.nested", "vp_pkg.nested.deep", "vp_pkg.lazy"}
NS = {
    "vp_pkg": {"value": 1, "false": False, "none": None, "sub": "module"}, "vp_pkg.sub": {"C": "object", "f": "object", "zero": 0},
    "vp_pkg.nested": {}, "vp_pkg.nested.deep": {"deep": "deep"}, "vp_pkg.lazy": {"dyn": "dynamic"},
}


def judge_path(case):
    fresh, path = case
    if fresh:
        for m in [m for m in sys.modules if m.split(".")[0] == "vp_pkg"]:
            del sys.modules[m]
    head, _, name = path.rpartition(".")
    loaded = set(sys.modules)
    try:
        got = ("value", import_dotted_path(path))
    except BaseException as e:
        got = ("error", type(e), str(e))
    bad = []
    if "." not in path:
        if got[0] != "error" or got[1] is not ValueError or repr(path)[1:-1] not in got[2]:
            bad.append(f"a path without module gave {got}")
    elif head in NS:
        submodule = f"{head}.{name}" in MODULES and f"{head}.{name}" in loaded  # a module that was imported before is an attribute
        if name in NS[head]:
            want = NS[head][name]
            if got[0] != "value":
                bad.append(f"an existing object gave {got}")
            elif want == "module":
                if got[1] is not sys.modules[f"{head}.{name}"]:
                    bad.append("not the named module")
            elif want == "object":
                if got[1] is not getattr(sys.modules[head], name):
                    bad.append("not the named object")
            elif got[1] != want or type(got[1]) is not type(want):
                bad.append(f"gave {got[1]!r}, expected {want!r}")
        elif not (submodule or hasattr(sys.modules.get(head), name)):
            if got[0] != "error" or not issubclass(got[1], AttributeError) or head not in got[2] or name not in got[2]:
                bad.append(f"a missing name gave {got}")
    else:
        if got[0] != "error":
            bad.append(f"a module that cannot be imported gave {got}")
        elif head.strip(".") and not head.startswith(".") and (not issubclass(got[1], ImportError) or head not in got[2]):
            bad.append(f"a module that cannot be imported gave {got}")
    return Result([f"import_dotted_path({path!r}): {b}" for b in bad], [hash(got[0])], 1, hash((got[0], str(got[1]))))


def path_cases(q):
    for fresh in (True, False):
        for p in words(NAMES, 1, 3 if q else 4):
            yield fresh, ".".join(p)


# ---------------------------------------------------------------- swapping components
@component
def A():
    use_state(0)
    return html.p({"id": "A"})


@component
def B():
    use_state(0)
    return html.p({"id": "B"}, "x")


@component
def C():
    use_state(0)
    return html.p({"id": "C"}, "x", "y")


def plain():
    return html.p({"id": "plain"})


def text():
    return "text"


SWAPS = {"A": A, "B": B, "C": C, "plain": plain, "text": text, "none": None}
SHOWN = {"A": ["A"], "B": ["B"], "C": ["C"], "plain": ["plain"], "text": ["text"], "none": [], None: []}


class SwapHarness(Harness):
    """One container which may be displayed several times in several layouts; swaps at any moment."""
    name = "swap"

    def setup(self):
        p = self.params
        configure(p["mode"])
        backend.set = OrderedSet  # the container keeps functions in a set, whose order depends on addresses
        # containers which were rendered but whose effect did not run yet: swaps at that time are a known finding
        self.pending, self.missed = [], False
        pending, original = self.pending, core_hooks.use_effect

        def use_effect(function):
            hook = HOOK_STACK.current_hook()
            started = core_hooks.use_ref(False)
            if not started.current and hook not in pending:
                pending.append(hook)

            def effect():
                started.current = True
                pending.remove(hook)
                return function()
            original(effect, [])
        core_hooks.use_effect = use_effect
        try:
            self.mount, self.hot = _hotswap(update_on_change=p["update"])
        finally:
            core_hooks.use_effect = original
        self.current = None
        self.clients, self.setters, self.layouts = [], [], []
        for i in range(p["layouts"]):
            self.open(i)
        for i, acts in enumerate(p["acts"]):
            self.actors.append(Actor(f"a{i}", [(a, self.action(a)) for a in acts],
                                     when=lambda: all(c.view is not None for c in self.clients) or p.get("early")))

    def open(self, i):
        hot, setters = self.hot, self.setters
        setters.append(None)

        @component
        def Root():
            n, setters[i] = use_state(1)
            return html.div([hot(key=str(k)) for k in range(n)])
        client = Client()
        layout = Layout(Root())
        self.clients.append(client)
        self.layouts.append(layout)

        async def run():
            async with layout:
                while True:
                    client.apply(await layout.render())
                    self.log(f"update {i} {norm(client.view)}")
        self.loop.create_task(run())

    def action(self, a):
        def do():
            op, arg = a.split("=")
            if op == "mount":
                self.missed |= bool(self.pending)
                self.mount(SWAPS[arg])
                self.current = arg
            elif op == "show":
                i, n = arg.split(",")
                if self.setters[int(i)] is not None:
                    self.setters[int(i)](int(n))
        return do

    def finish(self):
        if self.loop.problems:
            self.fail(f"C32:{self.loop.problems[0]}")
        if not self.params["update"]:
            # what is displayed from now on is the component which was set last
            for i in range(len(self.clients)):
                self.open(len(self.clients))
                break
            self.loop.drain()
            views = self.clients[-1:]
        else:
            views = self.clients
        for c in views:
            shown = ids(c.view)
            count = sum(1 for _ in tops(c.view))
            want = SHOWN[self.current] * count
            if shown != want and not (self.missed and "early-swap" in KNOWN and not self.params.get("strict")):
                self.fail(f"C32:displayed {shown}, the component set last is {self.current}")

    def outcome(self):
        return hash(repr([norm(c.view) for c in self.clients]))


def tops(view):
    """The containers displayed in a view: the children of the outermost <div>."""
    def find(n):
        if isinstance(n, dict):
            if n.get("tagName") == "div":
                return n
            for c in n.get("children", []):
                f = find(c)
                if f:
                    return f
        return None
    d = find(view)
    return d.get("children", []) if d else []


def ids(view):
    out = []

    def walk(n):
        if isinstance(n, str):
            out.append(n)
        elif n.get("tagName") == "p":
            out.append(n["attributes"]["id"])
        else:
            for c in n.get("children", []):
                walk(c)
    for t in tops(view):
        walk(t)
    return out


def swap_jobs(q):
    out = []
    b = 2 if q else 3
    for mode in ("async", "serial"):
        for update in (True, False):
            for acts in ([["mount=A", "mount=B"]], [["mount=A"], ["mount=plain", "mount=none"]], [["mount=B", "mount=A", "mount=C"], ["show=0,2", "show=0,1"]],
                         [["show=0,0", "show=0,1"], ["mount=A", "mount=text"]], [["show=0,2"], ["show=0,0", "show=0,3"], ["mount=B", "mount=none", "mount=A"]]):
                for early in (False, True):
                    out.append((SwapHarness, dict(mode=mode, update=update, layouts=1, acts=acts, early=early), b))
            out.append((SwapHarness, dict(mode=mode, update=update, layouts=2, acts=[["mount=A", "mount=B"], ["show=0,0", "show=1,2", "show=0,1"]], early=False), b - 1))
    return out


# ---------------------------------------------------------------- logs
class Boom(Exception):
    pass


RECORDS = {"a": ("info", "a", None), "b": ("error", "b", None), "va": ("exception", "a", ValueError("boom")), "kb": ("exception", "b", KeyError("other")),
           "wv": ("warning_exc", "ab", ValueError("wild"))}
CONDITIONS = {"any": {}, "a": {"match_message": "a"}, "b$": {"match_message": "^b$"}, "V": {"error_type": ValueError}, "boom": {"match_error": "boom"},
              "aV": {"match_message": "a", "error_type": ValueError}, "bV": {"match_message": "b", "error_type": ValueError},
              "Kother": {"error_type": LookupError, "match_error": "oth.r"}}
LISTS = {"all": {}, "V": {"types": ValueError}, "boom": {"pattern": "bo+m"}, "warn": {"log_level": logging.WARNING}, "keep": {"del_log_records": False},
         "none": {"pattern": "zzz"}, "VK": {"types": (ValueError, KeyError), "log_level": logging.CRITICAL}}


def matches(record, cond):
    level, msg, err = RECORDS[record]
    import re
    if "match_message" in cond and not re.search(cond["match_message"], msg):
        return False
    if "error_type" in cond and not isinstance(err, cond["error_type"]):
        return False
    if cond.get("match_error") and (err is None or not re.search(cond["match_error"], f"{type(err).__name__}: {err}")):
        return False
    return True


def listed(record, how):
    level, msg, err = RECORDS[record]
    import re
    no = {"info": 20, "error": 40, "exception": 40, "warning_exc": 30}[level]
    return (err is not None and no >= how.get("log_level", logging.ERROR) and isinstance(err, how.get("types", Exception))
            and re.search(how.get("pattern", ""), str(err)) is not None)


def emit(name):
    level, msg, err = RECORDS[name]
    if err is None:
        getattr(ROOT_LOGGER, level)(msg)
    else:
        try:
            raise err
        except Exception:
            if level == "exception":
                logging.getLogger("reactpy.sub").exception(msg)
            else:
                ROOT_LOGGER.warning(msg, exc_info=True)


class Failed(Exception):
    pass


def model_run(prog, own):
    """Returns nothing or raises what the program must raise; `own`: the records of the current context."""
    for st in prog:
        op = st[0]
        if op == "log":
            own.append(st[1])
        elif op == "raise":
            raise Boom
        elif op == "list":
            how = LISTS[st[1]]
            found = [r for r in own if listed(r, how)]
            st_log.append(("listed", found))
            if how.get("del_log_records", True):
                own[:] = [r for r in own if not listed(r, how)]
        elif op == "cap":
            model_run(st[1], [])
        else:
            inner = []
            model_run(st[2], inner)
            hit = any(matches(r, CONDITIONS[st[1]]) for r in inner)
            if hit != (op == "did"):
                raise Failed


def real_run(prog, records):
    for st in prog:
        op = st[0]
        if op == "log":
            emit(st[1])
        elif op == "raise":
            raise Boom
        elif op == "list":
            found = tlogs.list_logged_exceptions(records, **LISTS[st[1]])
            st_log.append(("listed", [next(k for k, v in RECORDS.items() if v[2] is e) for e in found]))
        elif op == "cap":
            with tlogs.capture_reactpy_logs() as inner:
                real_run(st[1], inner)
        else:
            f = tlogs.assert_reactpy_did_log if op == "did" else tlogs.assert_reactpy_did_not_log
            with f(**CONDITIONS[st[1]]):
                real_run(st[2], None)


def run_as_is(prog, records, captor):
    """What the known findings about log helpers make of a program (`captor`: the one list of all records, if any)."""
    @contextmanager
    def capture():
        mine = captor if captor is not None else []
        start = len(mine) if captor is not None else 0
        try:
            yield mine
        finally:
            del mine[start:]
    for st in prog:
        op = st[0]
        if op == "log":
            if captor is not None:
                captor.append(st[1])
        elif op == "raise":
            raise Boom
        elif op == "list":
            how, found = LISTS[st[1]], []
            for i, r in enumerate(records):
                if listed(r, how):
                    if how.get("del_log_records", True):
                        del records[i - len(found)]
                    found.append(r)
            st_log.append(("listed", found))
        elif op == "cap":
            with capture() as inner:
                run_as_is(st[1], inner, inner)
        else:
            try:
                with capture() as inner:
                    run_as_is(st[2], None, inner)
                    if not any(matches(r, CONDITIONS[st[1]]) for r in inner):
                        raise Failed
            except Failed:
                if op == "did":
                    raise
            else:
                if op == "not":
                    raise Failed


st_log = []


def judge_logs(prog):
    global st_log
    st_log = []
    try:
        model_run(prog, [])
        want = None
    except (Boom, Failed) as e:
        want = type(e).__name__
    wanted_log, st_log = st_log, []
    level, handlers = ROOT_LOGGER.level, list(ROOT_LOGGER.handlers)
    bad = []
    logging.disable(logging.NOTSET)
    try:
        real_run(prog, None)
        got = None
    except Boom:
        got = "Boom"
    except tlogs.LogAssertionError:
        got = "Failed"
    finally:
        logging.disable(logging.CRITICAL)
    known = []
    if got != want or st_log != wanted_log:
        real_log, st_log = st_log, []
        try:
            run_as_is(prog, None, None)
            as_is = None
        except (Boom, Failed) as e:
            as_is = type(e).__name__
        ident = "logged-exceptions" if prog[0][0] == "cap" and not any(st[0] in ("cap", "did", "not") for st in prog[0][1]) else "log-contexts"
        if (as_is, st_log) == (got, real_log) and ident in KNOWN:
            known.append((ident, KNOWN[ident]))
        elif got != want:
            bad.append(f"the outcome is {got or 'success'}, expected {want or 'success'}")
        else:
            bad.append(f"listed {real_log}, expected {wanted_log}")
    if ROOT_LOGGER.level != level or ROOT_LOGGER.handlers != handlers:
        bad.append("the logger was not restored")
        ROOT_LOGGER.setLevel(level)
        ROOT_LOGGER.handlers[:] = handlers
    if tlogs._LOG_RECORD_CAPTOR.records if hasattr(tlogs, "_LOG_RECORD_CAPTOR") else False:
        bad.append("records were kept")
        tlogs._LOG_RECORD_CAPTOR.records.clear()
    return Result(bad, [hash((got, repr(st_log)))], 1, hash((got, repr(st_log))), known)


def log_programs(q):
    recs = list(RECORDS)
    conds = list(CONDITIONS)
    # listings of all sequences of records
    for rs in words(recs, 0, 3 if q else 4):
        for l1 in LISTS:
            for l2 in LISTS:
                yield [("cap", [("log", r) for r in rs] + [("list", l1), ("list", l2), ("list", "keep")])]
    # one assertion around all short bodies
    leaf = [("log", r) for r in recs] + [("raise",)]
    for op in ("did", "not"):
        for c in conds:
            for body in words(leaf, 0, 2 if q else 3):
                yield [(op, c, list(body))]
    # nested assertions and captures with records before, within and after
    some = ["a", "va", "kb"]
    cs = ["any", "a", "V", "bV"] if q else conds
    opt = [[]] + [[("log", r)] for r in some]
    for op1 in ("did", "not", "cap"):
        for c1 in cs if op1 != "cap" else [None]:
            for op2 in ("did", "not", "cap"):
                for c2 in cs if op2 != "cap" else [None]:
                    for x, y, z in itertools.product(opt, opt + [[("raise",)]], opt):
                        inner = (op2, c2, y) if op2 != "cap" else ("cap", y)
                        body = [*x, inner, *z]
                        yield [(op1, c1, body) if op1 != "cap" else ("cap", body + [("list", "all")])]
    # three levels
    for ops in itertools.product(("did", "not"), repeat=3):
        for c in itertools.product(["any", "V"], repeat=3):
            for x, y, z in itertools.product(opt, repeat=3):
                yield [(ops[0], c[0], [*x, (ops[1], c[1], [*y, (ops[2], c[2], z)])])]


# ---------------------------------------------------------------- polling
def judge_poll(case):
    kind, method, values, timeout, delay, at = case
    loop = MCLoop()
    calls = []
    sentinel = values[at] if at is not None else object()

    def value():
        calls.append(loop.time())
        return values[min(len(calls) - 1, len(values) - 1)]

    async def avalue():
        return value()
    old = time.time, time.monotonic, time.perf_counter
    time.time = time.monotonic = time.perf_counter = loop.time
    bad = []
    with loop:
        try:
            p = poll(value if kind == "sync" else avalue)
            if method == "until":
                coro = p.until(lambda v: v == sentinel, timeout, delay)
            elif method == "is":
                coro = p.until_is(sentinel, timeout, delay)
            else:
                coro = p.until_equals(sentinel, timeout, delay)
            start = loop.time()
            t = loop.create_task(coro)
            loop.drain()
            took = loop.time() - start
            if not t.done():
                bad.append("never ends")
            else:
                exc = t.exception()
                hits = [k for k, v in enumerate(values) if (v is sentinel if method == "is" else v == sentinel)]
                limit = timeout + 2 * delay
                if exc is None:
                    if not calls or len(calls) - 1 < (hits[0] if hits else 10**9):
                        bad.append(f"ended after {len(calls)} values although the condition never held")
                    if hits and len(calls) - 1 > hits[0]:
                        bad.append("went on although the condition held")
                elif isinstance(exc, TimeoutError):
                    if took < timeout:
                        bad.append(f"gave up after {took}s, the timeout is {timeout}s")
                    if hits and hits[0] < len(calls):
                        bad.append("gave up although the condition held")
                else:
                    bad.append(f"raised {exc!r}")
                if took > limit:
                    bad.append(f"took {took}s, the timeout is {timeout}s")
        finally:
            time.time, time.monotonic, time.perf_counter = old
            loop.abandon()
    return Result([f"poll: {b}" for b in bad], [hash((len(calls), repr(case[1])))], len(calls) or 1, hash((len(calls), bool(bad))))


def poll_cases(q):
    vals = [0, 1, "x", None, [1]]
    for kind in ("sync", "async"):
        for method in ("until", "is", "equals"):
            for vs in words(vals, 1, 3 if q else 4):
                for timeout in (0, 1, 2.5):
                    for delay in (0.5, 1):
                        for at in [None, *range(len(vs))]:
                            yield kind, method, vs, timeout, delay, at


# ---------------------------------------------------------------- catching hooks and targets
def judge_catch(case):
    mode, history = case
    configure(mode)
    hooks, by = HookCatcher(), HookCatcher(index_by_kwarg="thing")
    handler = StaticEventHandler()
    log, box, bad = [], {}, []
    latest = {}

    @component
    @hooks.capture
    def Child(name):
        n, box[name] = use_state(0)
        latest["child"] = name
        return html.p({"id": name}, str(n))

    @component
    @by.capture
    def Thing(thing, also=1):
        n, box[thing] = use_state(0)
        return html.p({"id": thing}, str(n))

    @component
    def Root():
        n, box["root"] = use_state(0)
        f = handler.use(lambda e: log.append((n, e)), stop_propagation=True) if n % 2 == 0 else None
        return html.div({"onClick": f} if f else {}, Child("c", key="c"), Thing(thing="t", key="t"), Thing(thing="u", also=2, key="u") if n < 2 else None)

    count = {k: 0 for k in "ctu"}
    root = 0
    with Session(Root()) as s:
        sent = []
        for op in history:
            if op == "root":
                root += 1
                box["root"](root)
            elif op == "click":
                if any(e == "onClick" for _, e, _t in targets(s.client.view)):
                    sent.append((root, len(sent)))
                s.loop.create_task(s.layout.deliver({"type": "layout-event", "target": handler.target, "data": [len(sent) - 1 if root % 2 == 0 else -1]}))
            elif op in box and (op != "u" or root < 2):
                count[op] += 1
                by_hook = {"c": lambda: hooks.latest, "t": lambda: by.index["t"], "u": lambda: by.index["u"]}[op]
                box[op](count[op])
                by_hook().schedule_render()
            s.settle()
            view = {x["attributes"]["id"]: x["children"] for x in paragraphs(s.client.view)}
            want = {k: [str(count[k])] for k in "ctu" if k != "u" or root < 2}
            if root >= 2:
                count["u"] = 0
            if view != want:
                bad.append(f"after {op} the view is {view}, expected {want}")
            if log != sent:
                bad.append(f"after {op} the handler got {log}, expected {sent}")
            t = [x for _, e, x in targets(s.client.view) if e == "onClick"]
            if t != ([handler.target] if root % 2 == 0 else []):
                bad.append(f"the displayed target is {t}, the captured one is {handler.target}")
            if set(by.index) != {"t", "u"}:
                bad.append(f"hooks were captured for {sorted(by.index)}")
            if bad:
                break
    return Result([f"catch: {b}" for b in bad[:2]], [hash(repr(history))], len(history), hash(repr(log)))


def paragraphs(n):
    if isinstance(n, dict):
        if n.get("tagName") == "p":
            yield n
        for c in n.get("children", []):
            yield from paragraphs(c)


def main():
    chk = Check("C32")
    q = tier() == "quick"
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 400 if q else 800))
    d = setup_package()
    logging.getLogger("reactpy").propagate = False
    for h in logging.getLogger("reactpy").handlers:
        h.setLevel(logging.CRITICAL + 1)
    try:
        jobs = swap_jobs(q)
        st, _ = explore.explore_many(jobs, deadline)
        groups = [
            ("linked", lambda: linked_cases(q), judge_linked), ("image", lambda: image_cases(), judge_image),
            ("paths", lambda: path_cases(q), judge_path), ("logs", lambda: log_programs(q), judge_logs), ("poll", lambda: poll_cases(q), judge_poll),
            ("catch", lambda: ((m, h) for m in ("async", "serial") for h in words(["root", "click", "c", "t", "u"], 1, 4 if q else 5)), judge_catch),
        ]
        total, per = space.run(groups, deadline)
    finally:
        shutil.rmtree(d)
    space.finish(chk, groups, total, per,
                 "every case of each family on the real helpers, compared with a reference; swaps of components under every schedule with at "
                 "most the stated number of deviations from the default one",
                 f"linked inputs: histories up to {2 if q else 3} steps; logs: three levels of nesting; swaps: {2 if q else 3} deviations")
    chk.set(swap_schedules=st.executions, swap_states=len(st.states), states=len(total.states) + len(st.states),
            transitions=total.transitions + st.steps, traces_validated_against_impl=total.runs + st.executions,
            capped=total.capped or st.capped, exhaustive=not (total.capped or st.capped or st.diverged))
    from checks.c_layout import report_violations
    report_violations(chk, jobs, st)
    # the known finding about swaps: a history in which the swap may precede the effect of the container
    if "early-swap" in KNOWN:
        probe, _ = explore.explore_many([(SwapHarness, dict(mode="async", update=True, layouts=1, acts=[["mount=A", "mount=B"]], early=True, strict=True), 2)], deadline)
        if probe.violations:
            chk.known("early-swap", KNOWN["early-swap"])
    chk.done()


if __name__ == "__main__":
    main()
