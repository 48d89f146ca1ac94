LAYOUT = "src/reactpy/core/layout.py"
HOOK = "src/reactpy/core/_life_cycle_hook.py"
HOOKS = "src/reactpy/core/hooks.py"
SEEDS = {}

# helpers shared by the demonstrations (copied into each of them)
H = '''
import asyncio, sys
from reactpy import component, html, use_state, use_effect, use_ref, use_memo, use_context, create_context
from reactpy.config import REACTPY_ASYNC_RENDERING
from reactpy.core.layout import Layout
from reactpy.core.hooks import use_async_effect
REACTPY_ASYNC_RENDERING.current = True

def put(view, upd):
    """apply one update the way a client does"""
    if not upd["path"]:
        return upd["model"]
    import copy
    view = copy.deepcopy(view)
    node = view
    parts = upd["path"].strip("/").split("/")
    for p in parts[:-1]:
        node = node[int(p)] if isinstance(node, list) else node[p]
    node[int(parts[-1])] = upd["model"]
    return view

def find(view, id):
    if not isinstance(view, dict):
        return None
    if view.get("attributes", {}).get("id") == id:
        return view
    for c in view.get("children", []):
        r = find(c, id)
        if r:
            return r

def text(view):
    return view if isinstance(view, str) else "".join(text(c) for c in view.get("children", []))

async def settle(layout, view, timeout=0.2):
    """apply updates until none arrives for a while"""
    while True:
        try:
            view = put(view, await asyncio.wait_for(layout.render(), timeout))
        except asyncio.TimeoutError:
            return view

def fire(view, id, event="onClick", data=({},), **kw):
    return {"type": "layout-event", "target": find(view, id)["eventHandlers"][event]["target"], "data": list(data), **kw}

def main(coro):
    try:
        asyncio.run(asyncio.wait_for(coro, 60))
    except AssertionError as e:
        print("FAILED", e); sys.exit(1)
    print("ok")
'''

SEEDS["ack-last-handler"] = dict(
    property="C14",
    needs="an input with two handlers, the later listed one having received an older event than the earlier listed one",
    breaks="the acknowledged number is that of the last handler of the element instead of the largest one",
    edits=[(LAYOUT, "            if max_ack is None or ack > max_ack:\n                max_ack = ack\n", "            max_ack = ack\n")],
    demo=H + '''
@component
def App():
    n, set_n = use_state(0)
    return html.input({"id": "i", "value": str(n), "onChange": lambda e: set_n(n + 1), "onKeyDown": lambda e: set_n(n + 1)})

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        for ev, seq in (("onKeyDown", 1), ("onChange", 2)):
            await layout.deliver(fire(view, "i", ev, [{}], seq=seq))
            view = await settle(layout, view)
        ack = find(view, "i")["attributes"].get("_reactpy_ack_seq")
        assert ack == 2, ack
main(go())
''')

SEEDS["moved-element-path"] = dict(
    property="C02",
    needs="a keyed plain element that contains a stateful component is moved among its siblings, then that component changes its state",
    breaks="the update of the component below the moved element addresses the place the element had before the move",
    edits=[(LAYOUT, '''        index=new_index,
        key=old_model_state.key,
        model=Ref(),  # does not copy the model
        patch_path=f"{new_parent.patch_path}/children/{new_index}",
        children_by_key={},
        targets_by_event={},
        key_path=_child_key_path(new_parent, old_model_state.key),
    )


def _child_key_path''', '''        index=new_index,
        key=old_model_state.key,
        model=Ref(),  # does not copy the model
        patch_path=old_model_state.patch_path,
        children_by_key={},
        targets_by_event={},
        key_path=_child_key_path(new_parent, old_model_state.key),
    )


def _child_key_path''')],
    demo=H + '''
set_order = None
setters = {}
@component
def Leaf(name):
    n, setters[name] = use_state(0)
    return html.i({"id": name}, f"{name}{n}")

@component
def App():
    global set_order
    order, set_order = use_state(["a", "b", "c"])
    return html.div([html.p({"key": k}, Leaf(k)) for k in order])

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        set_order(["c", "b", "a"])
        view = await settle(layout, view)
        assert text(view) == "c0b0a0", text(view)
        setters["a"](5)
        view = await settle(layout, view)
        assert text(view) == "c0b0a5", text(view)
main(go())
''')

SEEDS["shared-providers"] = dict(
    property="C10",
    needs="a provider below a component whose next sibling reads the same context",
    breaks="components share the table of providers with their parent, so a provider also affects later siblings",
    edits=[(HOOK, "            self._context_providers.update(parent._context_providers)\n", "            self._context_providers = parent._context_providers\n")],
    demo=H + '''
Ctx = create_context("default")
@component
def Reader():
    return html.i(use_context(Ctx))

@component
def Section(v):
    return Ctx(Reader(), value=v)

@component
def App():
    return html.div(Section("one"), Reader(), Section("two"), Reader())

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        assert text(view) == "onedefaulttwodefault", text(view)
main(go())
''')

SEEDS["send-failure-swallowed"] = dict(
    property="C13",
    needs="sending an update to the client fails",
    breaks="the failure to send is logged but the session stays open for ever: its layout is never closed",
    edits=[("src/reactpy/core/serve.py", "        except Exception:  # nocov\n", "        except Exception as error:  # nocov\n            if isinstance(error, ConnectionError):\n                return\n")],
    demo=H + '''
from reactpy.core.serve import serve_layout
events = []
@component
def App():
    @use_effect(dependencies=[])
    def effect():
        events.append("start")
        return lambda: events.append("clean")
    n, set_n = use_state(0)
    use_effect(lambda: set_n(1), [])
    return html.div(str(n))

async def go():
    count = 0
    async def send(m):
        nonlocal count
        count += 1
        if count == 2:
            raise ConnectionError("gone")
    async def recv():
        await asyncio.Event().wait()
    task = asyncio.create_task(serve_layout(Layout(App()), send, recv))
    done, _ = await asyncio.wait([task], timeout=3)
    assert done, "session hangs"
    task.exception()
    assert events == ["start", "clean"], events
main(go())
''')

SEEDS["static-prefix"] = dict(
    property="C19",
    needs="a route of the wrapped application whose path merely begins with the text of the static prefix",
    breaks="requests for the wrapped application are taken over by the static file endpoint",
    edits=[("src/reactpy/executors/asgi/middleware.py", '        return scope["path"].startswith(self.static_path)\n', '        return scope["path"].startswith(self.static_path.rstrip("/"))\n')],
    demo='''
import asyncio, sys
from reactpy.executors.asgi.middleware import ReactPyMiddleware

async def user_app(scope, receive, send):
    await send({"type": "http.response.start", "status": 200, "headers": []})
    await send({"type": "http.response.body", "body": b"user"})

async def get(app, path):
    out = []
    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}
    async def send(m):
        out.append(m)
    await app({"type": "http", "method": "GET", "path": path, "raw_path": path.encode(), "query_string": b"", "headers": [], "root_path": ""}, receive, send)
    return out[0]["status"], out[-1].get("body")

app = ReactPyMiddleware(user_app, [])
r = asyncio.run(get(app, "/reactpy/static-report"))
print(r)
sys.exit(r != (200, b"user"))
''')

SEEDS["memo-loose-equality"] = dict(
    property="C09",
    needs="a dependency that changes to a value of another type which compares equal",
    breaks="a memo is not recomputed when a dependency changes from 1 to True",
    edits=[(HOOKS, '''            strictly_equal(current, new)
            for current, new in''', '''            current is new or current == new
            for current, new in''')],
    demo=H + '''
set_d = None
@component
def App():
    global set_d
    d, set_d = use_state(1)
    return html.div(use_memo(lambda: repr(d), [d]))

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        set_d(True)
        view = await settle(layout, view)
        assert text(view) == "True", text(view)
main(go())
''')

SEEDS["cancelled-effect-return"] = dict(
    property="C05",
    needs="an asynchronous effect that is superseded while it runs, handles the cancellation and returns a clean-up function",
    breaks="a cancelled run is no longer awaited: its successor overlaps with it and its clean-up function is never called",
    edits=[(HOOKS, '''                with contextlib.suppress(asyncio.CancelledError):
                    cleanup_func = await task
''', '''                if not task.cancelling():
                    cleanup_func = await task
''')],
    demo=H + '''
log = []
set_n = None
@component
def App():
    global set_n
    n, set_n = use_state(0)
    async def effect():
        log.append(f"start{n}")
        try:
            await asyncio.sleep(10)
        except asyncio.CancelledError:
            await asyncio.sleep(0.05)
        log.append(f"end{n}")
        return lambda: log.append(f"clean{n}")
    use_async_effect(effect, [n])
    return html.div(str(n))

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        await asyncio.sleep(0.02)
        set_n(1)
        view = await settle(layout, view)
    assert log[:4] == ["start0", "end0", "clean0", "start1"], log
main(go())
''')

SEEDS["tail-text-overwrite"] = dict(
    property="C22",
    needs="two adjacent text children after an element child",
    breaks="only the last of several adjacent texts after an element is kept in the HTML",
    edits=[("src/reactpy/utils.py", '''            last_child.tail = f"{last_child.tail or ''}{c}"\n''', '''            last_child.tail = str(c)\n''')],
    demo='''
import sys
from reactpy import html
from reactpy.utils import reactpy_to_string
r = reactpy_to_string(html.p("x", html.b("y"), "one ", "two"))
print(r)
sys.exit(r != "<p>x<b>y</b>one two</p>")
''')


