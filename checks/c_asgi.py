"""C19, C20: every request of a bounded alphabet against the real ASGI applications, compared with a reference model."""
from __future__ import annotations

import asyncio
import hashlib
from html import unescape
import itertools
import os
import re
import shutil
import sys
import tempfile
import time
import types
from pathlib import Path

import reactpy
from reactpy import component, config, html
from reactpy.core.hooks import use_connection, use_location
from reactpy.executors.asgi.middleware import ReactPyMiddleware
from reactpy.executors.asgi.pyscript import ReactPyCsr
from reactpy.executors.asgi.standalone import ReactPy

from mc import space
from mc.loop import MCLoop
from mc.report import Check, tier
from mc.space import Result, words

MODULE = "verif_asgi_components"
SCRATCH = None


def scratch():
    """Published files and their surroundings, one per process."""
    global SCRATCH
    if SCRATCH is None or SCRATCH[0] != os.getpid():
        d = Path(tempfile.mkdtemp(prefix="verif-asgi-"))
        SCRATCH = (os.getpid(), d)
        import atexit
        import multiprocessing.util
        multiprocessing.util.Finalize(None, shutil.rmtree, args=(str(d), True), exitpriority=1)
        atexit.register(shutil.rmtree, str(d), True)
        (d / "mods" / "sub").mkdir(parents=True)
        (d / "mods" / "a.js").write_text("content of a")
        (d / "mods" / "sub" / "b.js").write_text("content of b")
        (d / "mods" / "we ird.js").write_text("content of weird")
        (d / "secret.js").write_text("SECRET")
        (d / "mods2").mkdir()
        (d / "mods2" / "c.js").write_text("SECRET too")
        os.symlink(d / "secret.js", d / "mods" / "link.js")
        os.symlink(d / "mods2", d / "mods" / "dirlink")
        (d / "main.py").write_text("from reactpy import component\n@component\ndef root():\n    return 'ü'\n")
    return SCRATCH[1]


def make_module():
    if MODULE in sys.modules:
        return sys.modules[MODULE]
    m = types.ModuleType(MODULE)
    m.log = []

    def comp(name):
        @component
        def C():
            loc, con = use_location(), use_connection()
            m.log.append((name, loc.path, loc.query_string, con.scope["path"]))
            return html.p(name)
        return C
    for n in ("a", "b", "hidden"):
        setattr(m, n, comp(n))
    sys.modules[MODULE] = m
    return m


async def call(app, scope, messages):
    """Drive one ASGI connection; returns what the application sent."""
    sent = []
    inbox = asyncio.Queue()
    for x in messages:
        inbox.put_nowait(x)

    async def send(msg):
        sent.append(msg)

    await app(scope, inbox.get, send)
    return sent


def request(app, kind, path, method="GET", headers=(), query=b"path=%2Fhere&qs=%3Fx%3D1"):
    with MCLoop() as loop:
        scope = {"type": kind, "path": path, "raw_path": path.encode("utf8", "surrogateescape"), "query_string": query,
                 "headers": list(headers), "method": method, "root_path": "", "scheme": "http", "http_version": "1.1",
                 "subprotocols": [], "client": ("c", 1), "server": ("s", 1), "asgi": {"version": "3.0"}, "extensions": {}}
        if kind == "lifespan":
            scope = {"type": "lifespan", "asgi": {"version": "3.0"}}
        box = asyncio.Queue()
        sent = []

        async def send(msg):
            sent.append(msg)
        if kind == "http":
            box.put_nowait({"type": "http.request", "body": b"", "more_body": False})
        elif kind == "websocket":
            box.put_nowait({"type": "websocket.connect"})
        else:
            box.put_nowait({"type": "lifespan.startup"})
        t = loop.create_task(app(scope, box.get, send))
        loop.drain()
        if kind == "websocket":
            box.put_nowait({"type": "websocket.disconnect", "code": 1000})
            loop.drain()
        exc = None
        if not t.done():
            exc = "never finished"
        elif t.exception() is not None:
            exc = t.exception()
        loop.abandon()
    return sent, exc


def http_result(sent):
    start = [m for m in sent if m["type"] == "http.response.start"]
    body = b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body")
    headers = [(k.decode().lower(), v.decode("latin-1")) for m in start for k, v in m["headers"]]
    return (start[0]["status"] if len(start) == 1 else None), headers, body


# ---------------------------------------------------------------- C19
PREFIXES = ["/reactpy/", "/", "/a.b/", "/x+y/z/", "/(a/"]
SEGMENTS = ["a.js", "sub", "b.js", "..", "secret.js", "mods2", "c.js", "link.js", "dirlink", "", ".", "we ird.js", "..\\secret.js",
            "\0", "static", "modules"]


def apps(kind, prefix):
    """(application, what it consists of, record of the wrapped application's calls)"""
    make_module()
    log = []

    def recorder(name):
        async def app(scope, receive, send):
            log.append((name, scope["type"], scope.get("path")))
            if scope["type"] == "http":
                await send({"type": "http.response.start", "status": 299, "headers": []})
                await send({"type": "http.response.body", "body": name.encode()})
            elif scope["type"] == "lifespan":
                await send({"type": "lifespan.startup.complete"})
        return app
    settings = dict(path_prefix=prefix, web_modules_dir=scratch() / "mods")
    m = sys.modules[MODULE]
    if kind == "middleware":
        app = ReactPyMiddleware(recorder("user"), [f"{MODULE}.a", f"{MODULE}.b"], **settings)
    elif kind == "standalone":
        app = ReactPy(m.a, **settings)
    elif kind == "routes":
        app = ReactPy(m.a, **settings)
        app.route("/user/one")(recorder("one"))
        app.route("/user/.*")(recorder("any"))
        app.route("/api/")(recorder("api"))
        app.route("/api/", type="websocket")(recorder("apiws"))
        app.route("/reactpy/modules/a.js")(recorder("shadow"))
        app.route("/user/ws", type="websocket")(recorder("ws"))
        app.lifespan(recorder("life"))
    else:
        app = ReactPyCsr(scratch() / "main.py", **settings)
    return app, log


def expected_c19(kind, prefix, scope, path):
    """('file', path) | ('404',) | ('component', name) | ('refuse',) | ('user', name) | ('index',) | ('none',)"""
    if scope == "lifespan":
        return {"middleware": ("user", "user"), "routes": ("user", "life")}.get(kind, ("none",))
    if scope == "websocket":
        if kind == "middleware":
            rest = path[len(prefix):] if path.startswith(prefix) else None
            if rest and rest.endswith("/") and re.fullmatch(r"[a-zA-Z0-9_.]+", rest[:-1]):
                name = rest[:-1]
                if name in (f"{MODULE}.a", f"{MODULE}.b"):
                    return ("component", name[-1])
                return ("refuse",)
            return ("user", "user")
        if kind in ("standalone", "routes") and path == prefix:
            return ("component", "a")
        if kind == "routes" and path == "/user/ws":
            return ("user", "ws")
        if kind == "routes" and path == "/api/":
            return ("user", "apiws")
        return ("none",)
    for part, root in (("static/", None), ("modules/", "mods")):
        if path.startswith(prefix + part):
            rest = path[len(prefix + part):]
            if "\0" in rest or "\\" in rest or any(x in ("", ".", "..") for x in rest.split("/")):
                return ("404",)
            base = scratch() / root if root else Path(reactpy.__file__).parent / "static"
            f = base / rest
            if f.is_file() and f.resolve().is_relative_to(base.resolve()):
                return ("file", f)
            return ("404",)
    if kind == "middleware":
        return ("user", "user")
    if kind == "routes":
        if path == "/user/one":
            return ("user", "one")
        if path.startswith("/user/") and "\n" not in path:
            return ("user", "any")
        if path == "/api/":
            return ("user", "api")
        if path == "/reactpy/modules/a.js" or re.fullmatch("/reactpy/modules/a.js", path):
            return ("user", "shadow")
    return ("index",)


APPS = {}


def judge_c19(case):
    kind, prefix, scope, path, method = case
    config.REACTPY_ASYNC_RENDERING.current = True
    config.REACTPY_MAX_QUEUE_SIZE.current = 1000
    key = (os.getpid(), kind, prefix)
    if key not in APPS:
        APPS[key] = apps(kind, prefix)
    config.REACTPY_PATH_PREFIX.current = prefix
    app, log = APPS[key]
    log.clear()
    m = sys.modules[MODULE]
    m.log.clear()
    want = expected_c19(kind, prefix, scope, path)
    sent, exc = request(app, scope, path, method)
    failures = []
    got = None
    if log:
        got = ("user", log[0][0]) if len(log) == 1 else ("several", tuple(log))
    types_ = [x["type"] for x in sent]
    if scope == "http":
        status, headers, body = http_result(sent)
        if b"SECRET" in body:
            failures.append("content of a file outside the published directories was served")
        if got is None:
            if status == 200 and b"<!doctype html>" in body.lower():
                got = ("index",)
            elif status == 200 and want[0] == "file":
                if body == (b"" if method == "HEAD" else want[1].read_bytes()):
                    got = want
                else:
                    got = ("other content", body[:80])
            elif status == 404 and b"Resource not found on this server" in body:
                got = ("404",)
            else:
                got = ("response", status, body[:80])
        if exc is not None:
            failures.append(f"the request raised {exc!r}")
        if [x["type"] for x in sent].count("http.response.start") != 1:
            failures.append(f"the request was answered with {types_}")
    elif scope == "websocket":
        if got is None:
            if m.log:
                got = ("component", m.log[0][0])
                if len(m.log) != 1 or m.log[0][1:] != ("/here", "?x=1", path):
                    failures.append(f"rendered with {m.log}")
            elif "websocket.accept" in types_:
                got = ("refuse",)
            else:
                got = ("none",)
        elif m.log:
            failures.append(f"the websocket was handled twice: {log} and {m.log}")
    else:
        got = got or ("none",)
    if got != want:
        failures.append(f"handled by {got}, expected {want}")
    return Result(failures, [hash((kind, scope, str(want)))], 1, hash(case))


def c19_groups(q):
    def http():
        for prefix in PREFIXES:
            other = "/reactpy/" if prefix != "/reactpy/" else "/other/"
            for kind in ("middleware", "standalone", "routes", "csr"):
                for part in ("modules/", "static/"):
                    for w in words(SEGMENTS, 1, 3 if q else 4):
                        yield kind, prefix, "http", prefix + part + "/".join(w), "GET"
                    for w in words(SEGMENTS[:3], 1, 2):
                        for method in ("HEAD",):
                            yield kind, prefix, "http", prefix + part + "/".join(w), method
                files = [str(p.relative_to(Path(reactpy.__file__).parent / "static"))
                         for p in sorted((Path(reactpy.__file__).parent / "static").rglob("*")) if p.is_file()]
                for f in files:
                    for p in (prefix + "static/" + f, prefix + "modules/" + f, prefix + f, other + "static/" + f):
                        yield kind, prefix, "http", p, "GET"
                for p in ("", "static", "modules", "staticx/a.js", "modules.js", "Modules/a.js", "user", "user/", "x" + prefix + "modules/a.js"):
                    yield kind, prefix, "http", prefix + p, "GET"
                    yield kind, prefix, "http", prefix.rstrip("/") + "x/" + p, "GET"
                for p in ("/", "/user/one", "/user/two", "/user/", "/user", "/user/one/", "/a", "/aXb/modules/a.js", "/xxy/z/modules/a.js",
                          "/static/x", "/modules/a.js", "/reactpy/modules/a.js", "/reactpy/modulesXa.js",
                          "/api/", "/api", "/api/x", "/x/api/", "/api//"):
                    yield kind, prefix, "http", p, "GET"

    def ws():
        names = [f"{MODULE}.a", f"{MODULE}.b", f"{MODULE}.hidden", MODULE, "os.system", "a", f"{MODULE}.a.b", f"{MODULE}..a", "..",
                 f"{MODULE}.a\n", f"{MODULE}.a/b", f"{MODULE}-a", "ü.a", f"x/{MODULE}.a", "", f"{MODULE}.a%20", f" {MODULE}.a"]
        for prefix in PREFIXES:
            for kind in ("middleware", "standalone", "routes", "csr"):
                for n in names:
                    for pre in (prefix, prefix.replace(".", "X").replace("+", "x"), prefix.rstrip("/"), "/" + prefix, prefix + "static/",
                                "/other" + prefix, prefix.upper()):
                        for end in ("/", "", "//", "/\n", "\n", "/x"):
                            if pre == prefix or end == "/":
                                yield kind, prefix, "websocket", pre + n + end, "GET"
                for p in (prefix, prefix + "\n", "/user/ws", "/user/ws/", "/x/user/ws", "/", "/user/one", "/api/", "/api/x", "/api"):
                    yield kind, prefix, "websocket", p, "GET"
                yield kind, prefix, "lifespan", "", "GET"

    def dedupe(f):
        seen = set()
        for x in f():
            if x not in seen:
                seen.add(x)
                yield x
    return [("http requests", lambda: dedupe(http), judge_c19), ("websockets and lifespan", lambda: dedupe(ws), judge_c19)]


# ---------------------------------------------------------------- C20
HEADS = {"none": None, "title": lambda: html.head(html.title("Plain")), "unicode": lambda: html.head(html.title("Zürich 東京 🎉")),
         "meta": lambda: html.head(html.meta({"name": "d", "content": 'a "quoted" <b> & ü'}))}
BODIES = {"default": ..., "none": None, "text": lambda: html.p("before"), "unicode": lambda: html.p("vorher ü 🎉")}
EXTRA = {"none": None, "own": {"x-own": "1"}, "cache": {"cache-control": "no-store"}}
SETTINGS = {"default": {}, "reconnect": {"reconnect_interval": 123, "reconnect_max_interval": 4567, "reconnect_max_retries": 89,
                                        "reconnect_backoff_multiplier": 1.75},
            "prefix": {"path_prefix": "/deep/er/"}}
DEFAULTS = {"reconnect_interval": 750, "reconnect_max_interval": 60000, "reconnect_max_retries": 150, "reconnect_backoff_multiplier": 1.25,
            "path_prefix": "/reactpy/"}
REQUESTS = ["GET", "HEAD", "match", "stale", "since", "since-stale", "match+since-stale", "stale+since", "list", "POST"]


def build_c20(kind, head, body, extra, lang, settings):
    for k, v in DEFAULTS.items():
        getattr(config, "REACTPY_" + k.upper()).current = v
    kw = dict(html_lang=lang, http_headers=EXTRA[extra], html_head=HEADS[head] and HEADS[head](), **SETTINGS[settings])
    if BODIES[body] is not ...:
        kw["prepend_body"] = BODIES[body] and BODIES[body]()
    m = make_module()
    if kind == "standalone":
        return ReactPy(m.a, **kw)
    return ReactPyCsr(scratch() / "main.py", initial="lädt", **kw)


def judge_c20(case):
    kind, head, body, extra, lang, settings, history = case
    config.REACTPY_ASYNC_RENDERING.current = True
    app = build_c20(kind, head, body, extra, lang, settings)
    failures, n, first = [], 0, None
    path = "/any/where"
    for req in ("GET",) + history if history[0] != "HEAD" else history:
        n += 1
        hs = []
        if first is None and req not in ("GET", "HEAD"):
            req = "GET"
        parts = req.split("+")
        if "match" in parts:
            hs.append((b"if-none-match", first["etag"].encode()))
        if "list" in parts:
            hs.append((b"if-none-match", b'"other", ' + first["etag"].encode()))
        if "stale" in parts:
            hs.append((b"if-none-match", b'"0123"'))
        if "since" in parts:
            hs.append((b"if-modified-since", first["last-modified"].encode()))
        if "since-stale" in parts:
            hs.append((b"if-modified-since", b"Thu, 01 Jan 1970 00:00:00 GMT"))
        method = req if req in ("GET", "HEAD", "POST") else "GET"
        sent, exc = request(app, "http", path, method, hs)
        if exc is not None:
            failures.append(f"{req} raised {exc!r}")
            break
        status, headers, data = http_result(sent)
        h = dict(headers)
        if len(h) != len(headers):
            failures.append(f"{req}: a header is repeated: {headers}")
        # the current validator decides; a date is only a validator in the absence of an entity tag
        hit = "match" in parts or "list" in parts or ("since" in parts and "stale" not in parts)
        if hit:
            if status != 304 or data:
                failures.append(f"{req}: expected an empty 304, got {status} with {len(data)} bytes")
            if h.get("etag") != first["etag"]:
                failures.append(f"{req}: the 304 answer has another validator")
            continue
        if status != 200:
            failures.append(f"{req}: status {status}")
            break
        if method == "HEAD":
            if data:
                failures.append("HEAD: the answer has a body")
            if first is not None and h != first:
                failures.append(f"HEAD: headers {h}, GET has {first}")
            first = first or h
            continue
        if h.get("content-length") != str(len(data)):
            failures.append(f"{req}: declared length {h.get('content-length')}, sent {len(data)} bytes")
        if first is not None and h != first:
            failures.append(f"{req}: headers {h}, before {first}")
        first = first or h
        text = data.decode()
        failures += judge_page(kind, head, body, lang, settings, text)
        for k, v in (EXTRA[extra] or {}).items():
            if h.get(k) != v:
                failures.append(f"{req}: configured header {k} is missing")
        digest = hashlib.sha1(data).hexdigest()
        ETAGS.setdefault(first["etag"], digest)
        if ETAGS[first["etag"]] != digest:
            failures.append(f"{req}: different pages have the same validator {first['etag']}")
    return Result(failures, [hash((case[:-1], r)) for r in history], n, hash(case))


ETAGS = {}


def judge_page(kind, head, body, lang, settings, text):
    out = []
    s = {**DEFAULTS, **SETTINGS[settings]}
    if not text.lower().startswith("<!doctype html><html"):
        out.append("the page does not start with a document type")
    if f'<html lang="{lang}">' not in text:
        out.append(f"the page has not the language {lang}")
    for want in {"title": ["<title>Plain</title>"], "unicode": ["<title>Zürich 東京 🎉</title>"],
                 "meta": ['a "quoted" <b> & ü']}.get(head, []) + \
            {"default": ["<noscript>Enable JavaScript to view this site.</noscript>"], "text": ["<p>before</p>"],
             "unicode": ["<p>vorher ü 🎉</p>"]}.get(body, []):
        if want not in unescape(text):
            out.append(f"the page does not contain {want}")
    if body != "default" and "<noscript>" in text:
        out.append("the page contains the default content before the mount point")
    if kind == "standalone":
        i = text.find("mountReactPy({")
        block = text[i:text.find("})", i)]
        mount = re.search(r'getElementById\("([^"]*)"\)', block)
        if i < 0 or not mount or text.count(f'id="{mount.group(1)}"') != 1 or f'<div id="{mount.group(1)}"' not in text:
            out.append("the page has no mount point")
        js = {"reconnectInterval": "reconnect_interval", "reconnectMaxInterval": "reconnect_max_interval",
              "reconnectMaxRetries": "reconnect_max_retries", "reconnectBackoffMultiplier": "reconnect_backoff_multiplier"}
        for k, name in js.items():
            m = re.search(rf"\b{k}: *([0-9.]+)[,}}\s]", block)
            if not m or float(m.group(1)) != float(s[name]):
                out.append(f"the page configures {k} as {m and m.group(1)}, the setting is {s[name]}")
        m = re.search(r'\bpathPrefix: *"([^"]*)"', block)
        if not m or m.group(1) != s["path_prefix"]:
            out.append(f"the page configures the prefix {m and m.group(1)}")
        if f'from "{s["path_prefix"]}static/index.js"' not in text:
            out.append("the page does not load the client")
    else:
        if not re.search(r"<script type=.py.>", text):
            out.append("the page does not contain the program")
    return out


def c20_groups(q):
    configs = list(itertools.product(("standalone", "csr"), HEADS, BODIES, EXTRA, ("en", "pt-BR"), SETTINGS))

    def one():
        for c in configs:
            for r in REQUESTS:
                yield (*c, (r,))

    def histories():
        for c in [x for x in configs if x[4] == "en" and x[3] == "none" and x[1] in ("none", "unicode") and x[2] in ("default", "unicode")]:
            for w in words(REQUESTS, 2, 2 if q else 3):
                yield (*c, w)
    return [("one request per configuration", one, judge_c20), ("histories of requests", histories, judge_c20)]


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    q = tier() == "quick"
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800))
    scratch_parent = scratch()
    make_module()
    from reactpy.executors.pyscript import utils as pu
    if hasattr(pu, "_ensure_local_reactpy_wheel"):  # the wheel is built with network tools; its place is all that matters here
        pu._ensure_local_reactpy_wheel = lambda *a, **k: Path("/nowhere/reactpy-0-py3-none-any.whl")
    if prop == "C19":
        groups = c19_groups(q)
        rule = "case = one connection to one of four applications under one of five prefixes; state = (application, kind, destination), transition = request"
        bound = f"all paths below the published prefixes with at most 3 (thorough 4) of {len(SEGMENTS)} segments; all combinations of the listed names, prefixes and endings for websockets"
    else:
        groups = c20_groups(q)
        rule = "case = a history of requests to a freshly built application; state = (configuration, request), transition = request"
        bound = "all 1152 configurations x 10 requests; all histories of 2 (thorough 3) requests for 24 configurations"
    total, per = space.run(groups, deadline)
    shutil.rmtree(scratch_parent, ignore_errors=True)
    space.finish(chk, groups, total, per, rule, bound, ["work handed to a thread is done in one step of the loop"])
    chk.done()


if __name__ == "__main__":
    main()
