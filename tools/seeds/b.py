import os, runpy

A = runpy.run_path(os.path.join(os.path.dirname(__file__), "a.py"))
H, LAYOUT, HOOK, HOOKS = A["H"], A["LAYOUT"], A["HOOK"], A["HOOKS"]
B = "src/reactpy/"
CL = "src/js/packages/@reactpy/client/src/"
SEEDS = {}

SEEDS["type-by-name"] = dict(
    property="C03",
    needs="two different component types made by the same factory follow each other at the same place",
    breaks="a component is taken for the previous one because both functions have the same qualified name, so its state is carried over",
    edits=[(LAYOUT, "            and old_state.life_cycle_state.component.type != component.type\n",
            "            and old_state.life_cycle_state.component.type.__qualname__\n            != component.type.__qualname__\n")],
    demo=H + '''
def make(name):
    @component
    def Page():
        n, set_n = use_state(0)
        return html.button({"id": "b", "onClick": lambda e: set_n(n + 1)}, f"{name}{n}")
    return Page

pages = [make("first"), make("second")]
show = None

@component
def App():
    global show
    i, show = use_state(0)
    return html.div(pages[i]())

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        await layout.deliver(fire(view, "b"))
        view = await settle(layout, view)
        assert text(view) == "first1", text(view)
        show(1)
        view = await settle(layout, view)
        assert text(view) == "second0", text(view)
main(go())
''')

SEEDS["ack-last-handler"] = A["SEEDS"]["ack-last-handler"]

SEEDS["await-deliveries"] = dict(
    property="C07",
    needs="one handler is busy while more events than fit into its queue arrive, followed by an event for another handler",
    breaks="the incoming loop waits for each delivery, so the full queue of one handler blocks the events of all others",
    edits=[(B + "core/serve.py", "        task_group.start_soon(layout.deliver, await recv())", "        await layout.deliver(await recv())")],
    demo=H + '''
from reactpy.config import REACTPY_MAX_QUEUE_SIZE
from reactpy.core.serve import serve_layout
REACTPY_MAX_QUEUE_SIZE.current = 2

async def go():
    quick = asyncio.Event()
    forever = asyncio.Event()
    async def slow(event):
        await forever.wait()

    @component
    def App():
        return html.div(html.button({"id": "a", "onClick": slow}), html.button({"id": "b", "onClick": lambda e: quick.set()}))

    first = asyncio.get_running_loop().create_future()
    events = asyncio.Queue()
    async def send(update):
        if not first.done():
            first.set_result(update["model"])
    task = asyncio.create_task(serve_layout(Layout(App()), send, events.get))
    view = await first
    for _ in range(6):
        events.put_nowait(fire(view, "a"))
    events.put_nowait(fire(view, "b"))
    try:
        await asyncio.wait_for(quick.wait(), 2)
    except asyncio.TimeoutError:
        raise AssertionError("the other handler was never called")
    finally:
        task.cancel()
        await asyncio.gather(task, return_exceptions=True)
main(go())
''')

SEEDS["put-tasks-kept"] = dict(
    property="C29",
    needs="serial rendering and many components that change their state once and are removed",
    breaks="the rendering queue keeps the task of every successful put for ever, under the identifier of a component that may be gone",
    edits=[(LAYOUT, '''        except BaseException:
            self._pending.discard(value)
            raise
        finally:
            self._put_tasks.pop(value, None)
''', '''        except BaseException:
            self._pending.discard(value)
            self._put_tasks.pop(value, None)
            raise
''')],
    demo=H + '''
import gc
REACTPY_ASYNC_RENDERING.current = False
show = set_n = None

@component
def Item():
    global set_n
    n, set_n = use_state(0)
    return html.i(str(n))

@component
def App():
    global show
    i, show = use_state(0)
    return html.div(Item(key=str(i)))

async def tasks(layout, start, stop):
    view = {}
    for i in range(start, stop):
        show(i)
        await layout.render()
        set_n(1)
        await layout.render()
    gc.collect()
    return sum(isinstance(o, asyncio.Task) for o in gc.get_objects())

async def go():
    async with Layout(App()) as layout:
        await layout.render()
        few = await tasks(layout, 1, 20)
        many = await tasks(layout, 20, 120)
        assert many < few + 20, (few, many)
main(go())
''')

SEEDS["etag-of-length"] = dict(
    property="C20",
    needs="two index pages of equal length, for example after a change of the title by a word of the same length",
    breaks="the validator of the index page is derived from its length only, so a browser keeps a stale page",
    edits=[(B + "executors/asgi/standalone.py", "hashlib.md5(self._index_html.encode(), usedforsecurity=False)",
            'hashlib.md5(str(len(self._index_html)).encode(), usedforsecurity=False)')],
    demo=H + '''
from reactpy.executors.asgi.standalone import ReactPy
import reactpy.executors.asgi.standalone as standalone

@component
def App():
    return html.p("x")

async def get(app, path="/", headers=()):
    sent = []
    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}
    async def send(m):
        sent.append(m)
    scope = {"type": "http", "method": "GET", "path": path, "raw_path": path.encode(), "root_path": "", "query_string": b"",
             "headers": list(headers), "scheme": "http", "server": ("localhost", 80), "client": ("localhost", 1), "http_version": "1.1"}
    await app(scope, receive, send)
    return sent[0]["status"], {k.decode().lower(): v for k, v in sent[0]["headers"]}, b"".join(m.get("body", b"") for m in sent)

async def go():
    tags = []
    for lang in ("en", "de"):
        app = ReactPy(App, html_lang=lang)
        status, headers, body = await get(app)
        assert status == 200 and f'lang="{lang}"'.encode() in body
        tags.append(headers[b"etag".decode()])
    # both pages may have been made within the same second
    status, _, body = await get(ReactPy(App, html_lang="de"), headers=[(b"if-none-match", tags[0])])
    assert status == 200, "the page in another language is reported as unchanged"
main(go())
''')

SEEDS["merge-rates"] = dict(
    property="C24",
    needs="two handlers that are merged, of which only one has a throttle",
    breaks="handlers with different throttle intervals are merged, the interval of the first one applies to both",
    edits=[(B + "core/events.py", "            or handler.throttle != throttle\n", "            or (handler.throttle or throttle) != throttle\n")],
    demo=H + '''
from reactpy.core.events import EventHandler, merge_event_handlers
async def f(data): pass
async def g(data): pass
a, b = EventHandler(f, throttle=100), EventHandler(g)
for pair in ([a, b], [b, a]):
    try:
        m = merge_event_handlers(pair)
    except ValueError:
        continue
    print("FAILED merged to", m.throttle); sys.exit(1)
print("ok")
''')

SEEDS["nested-attribute-children"] = dict(
    property="C23",
    needs="a JavaScript component imported without children, of which a sub-component is used through attribute access",
    breaks="a constructor obtained by attribute access (Module.Sub) accepts children although the module's components do not",
    edits=[(B + "core/vdom.py", "            allow_children=self.allow_children,\n            import_source=self.import_source,\n        )",
            "            import_source=self.import_source,\n        )")],
    demo=H + '''
from reactpy.core.vdom import Vdom
outer = Vdom("Menu", allow_children=False, import_source={"source": "x", "sourceType": "URL", "fallback": None, "unmountBeforeUpdate": False})
for make in (outer, outer.Item, outer.Item.Icon):
    make({"a": 1})
    try:
        r = make("child")
    except TypeError:
        continue
    print("FAILED", r); sys.exit(1)
print("ok")
''')

SEEDS["cached-import-options"] = dict(
    property="C26",
    needs="the same URL imported twice with different unmount_before_update",
    breaks="the second import of a module returns the first one although another unmount_before_update was requested",
    edits=[(B + "reactjs/__init__.py", '    key = f"{url}{resolve_imports}{resolve_imports_depth}{unmount_before_update}"', '    key = f"{url}{resolve_imports}{resolve_imports_depth}"')],
    demo=H + '''
from reactpy.reactjs import component_from_url
got = [component_from_url("https://example.org/m.js", "A", resolve_imports=False, unmount_before_update=u)()["importSource"]["unmountBeforeUpdate"] for u in (False, True)]
if got != [False, True]:
    print("FAILED", got); sys.exit(1)
print("ok")
''')

SEEDS["empty-edit-dropped"] = dict(
    property="C32",
    needs="one of several linked inputs is emptied while empty values are ignored",
    breaks="emptying a linked input is not only left out of the reports but is not shown by the other inputs either",
    edits=[(B + "widgets.py", "        set_value(new_value)\n        if not new_value and ignore_empty:\n            return None\n",
            "        if not new_value and ignore_empty:\n            return None\n        set_value(new_value)\n")],
    demo=H + '''
from reactpy.widgets import use_linked_inputs
seen = []
@component
def App():
    return html.div(*use_linked_inputs([{"id": "a"}, {"id": "b"}], on_change=seen.append))

async def go():
    async with Layout(App()) as layout:
        view = (await layout.render())["model"]
        for v in ("x", ""):
            await layout.deliver(fire(view, "a", "onChange", [{"target": {"value": v}}]))
            view = await settle(layout, view)
        shown = [find(view, i)["attributes"]["value"] for i in "ab"]
        assert shown == ["", ""], shown
        assert seen == ["x"], seen
main(go())
''')


# ---- the browser's client: bundled with esbuild and run by node, with stand-ins for the browser
JS = """#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
P="$PWD/src/js/packages"
set -o pipefail
/opt/veriftools/node/node_modules/.bin/esbuild "$D/demo.js" --bundle --format=esm --platform=node --log-level=error \\
  --jsx=automatic --jsx-import-source=preact --external:react --external:react-dom/client \\
  "--alias:client=$P/@reactpy/client/src" "--alias:event-to-object=$P/event-to-object/src/index.ts" \\
  "--alias:preact=$D/preact.js" | node --input-type=module -
"""
PREACT = "export const Fragment = Symbol('Fragment');\n"
WS = """
import { createReconnectingWebSocket } from "client/websocket";
const timers = [];
globalThis.setTimeout = (f, ms) => { timers.push([f, ms]); };
globalThis.window = globalThis;
globalThis.location = { pathname: "/", search: "" };
const opened = [];
globalThis.WebSocket = class { constructor(url) { this.url = String(url); opened.push(this); } };
console.info = console.log = () => {};
async function start(props) {
  createReconnectingWebSocket({ url: new URL("ws://x/"), readyPromise: Promise.resolve(), interval: 100, maxInterval: 1000, maxRetries: 3, backoffMultiplier: 2, ...props });
  for (let i = 0; i < 10; i++) await null;
}
const last = () => opened[opened.length - 1];
function next() { const t = timers.shift(); t[0](); return t[1]; }
function check(ok, what) { if (!ok) { process.stdout.write("FAILED " + what + "\\n"); process.exit(1); } }
"""

SEEDS["stale-query-string"] = dict(
    property="C16",
    needs="the page's query string is removed by client side navigation, after which the connection is lost and made again",
    breaks="a reconnecting client reports the query string of the page it was at before",
    edits=[(CL + "websocket.ts", """    // Remove any existing (potentially stale) query string parameter if the current location doesn't have one
    url.searchParams.delete("qs");
""", """    // Keep the parameter in place, so the URL has the same shape whenever we connect
    url.searchParams.append("qs", "");
""")],
    demo_sh=JS, files={"preact.js": PREACT, "demo.js": WS + """
globalThis.location = { pathname: "/a", search: "?x=1" };
await start({});
check(new URL(last().url).searchParams.get("qs") === "?x=1", "first connection");
last().onopen();
globalThis.location = { pathname: "/b", search: "" };
last().onclose();
next();
const u = new URL(last().url);
check(u.searchParams.get("path") === "/b" && !u.searchParams.get("qs"), last().url);
"""})

SEEDS["backoff-not-reset"] = dict(
    property="C16",
    needs="a connection that is lost again after it was re-established",
    breaks="the number of retries is not reset by a successful connection, so after enough outages the client gives up",
    edits=[(CL + "websocket.ts", """      retries = 0;
      if (props.onOpen) {
        props.onOpen();
      }
""", """      if (props.onOpen) {
        props.onOpen();
      }
""")],
    demo_sh=JS, files={"preact.js": PREACT, "demo.js": WS + """
await start({});
last().onopen();
for (let i = 0; i < 3; i++) {
  const n = opened.length;
  last().onclose(); next();
  last().onclose(); next();
  check(opened.length === n + 2, "retries");
  last().onopen();
}
last().onclose();
check(timers.length === 1, "a retry after the connection was lost");
next(); last().onclose();
check(timers.length === 1, "second retry"); next(); last().onclose();
check(timers.length === 1, "third retry"); next(); last().onclose();
check(timers.length === 0, "no fourth retry");
"""})

SEEDS["superseded-module"] = dict(
    property="C17",
    needs="a child of a JavaScript component changes to a component of another module while the first module is still loading, and the first one arrives last",
    breaks="a module that was superseded while it was loaded replaces the one that is displayed",
    edits=[(CL + "vdom.tsx", """          this.isConnected &&
          this.currentImportSource &&
          isImportSourceEqual(this.currentImportSource, newImportSource)
""", """          this.isConnected &&
          this.currentImportSource
""")],
    demo_sh=JS, files={"preact.js": PREACT, "demo.js": """
let Child;
globalThis.HTMLElement = class { appendChild(c) { c.parent = this; } };
globalThis.document = { createElement: () => ({ style: {} }) };
globalThis.customElements = { get: () => undefined, define: (n, c) => { Child = c; } };
await import("client/vdom");
const loads = {}, shown = [];
const client = {
  sendMessage() {}, onMessage() {},
  loadModule: (name) => new Promise((r) => { loads[name] = () => r(module(name)); }),
};
function module(name) {
  return { [name.toUpperCase()]: name, bind: () => ({ create: (type) => type, render: (el) => { shown.push(el); }, unmount: () => { shown.push("-"); } }) };
}
const model = (name) => ({ tagName: name.toUpperCase(), importSource: { source: name, sourceType: "NAME" } });
const wait = async () => { for (let i = 0; i < 50; i++) await null; };
const node = new Child();
Object.defineProperty(node, "isConnected", { value: true });
node.connectedCallback();
node.client = client;
for (const name of ["a", "b"]) { node.model = model(name); node.requestUpdate(); await wait(); }
loads.b(); await wait();
loads.a(); await wait();
if (shown.filter((s) => s !== "-").pop() !== "b") { console.log("FAILED " + shown); process.exit(1); }
console.log("ok");
"""})

SEEDS["shared-objects"] = dict(
    property="C31",
    needs="an event in which the same object occurs twice, such as an element that is both target and currentTarget",
    breaks="an object that was converted once is left out wherever else it occurs, although it is no cycle",
    edits=[("src/js/packages/event-to-object/src/index.ts", """    return classToObject(x, maxDepth, visited);
  } finally {
    visited.delete(x);
  }
""", """    return classToObject(x, maxDepth, visited);
  } finally {
    if (maxDepth < 2) {
      visited.delete(x);
    }
  }
""")],
    demo_sh=JS, files={"preact.js": PREACT, "demo.js": """
import convert from "event-to-object";
for (const n of ["CSSStyleSheet", "Window", "Document", "Node", "Blob", "CSSStyleDeclaration"]) globalThis[n] ??= class {};
const el = { value: "x", detail: { n: 1 } };
const r = convert({ target: el, currentTarget: el, a: { b: { c: el } } });
const want = JSON.stringify(el);
if ([r.target, r.currentTarget, r.a?.b?.c].some((v) => v?.value !== "x" || v?.detail?.n !== 1)) { console.log("FAILED " + JSON.stringify(r)); process.exit(1); }
console.log("ok");
"""})

