"""C34: pages made of template tags - every bounded combination, run and followed to the application that serves it."""
from __future__ import annotations

import itertools
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from html.parser import HTMLParser
from pathlib import Path
from urllib.parse import urljoin, urlsplit

import jinja2

from reactpy import config
from reactpy.executors.asgi.middleware import ReactPyMiddleware
from reactpy.executors.pyscript import utils as pu
from reactpy.templatetags import ReactPyJinja

from checks import c_asgi
from mc import space
from mc.report import Check, tier
from mc.space import Result

MODULE = c_asgi.MODULE
PREFIXES = c_asgi.PREFIXES
SETTINGS = {"default": {}, "other": {"reconnect_interval": 100, "reconnect_max_interval": 2000, "reconnect_max_retries": 3, "reconnect_backoff_multiplier": 1.5}}
DEFAULTS = {"reconnect_interval": 750, "reconnect_max_interval": 60000, "reconnect_max_retries": 150, "reconnect_backoff_multiplier": 1.25}
OWN_MAP = '{"imports": {"react": "/mine.js"}}'
CLASSES = ["x", "x y", "", 'say "hi"', "a&amp;b <i> 'q'", "ünï"]
PROGRAM = "from reactpy import component, html\n\n@component\ndef root():\n    return html.p('ü <b>')\n"
SECOND = "from reactpy import component, html\n\n@component\ndef other():\n    return 'other'\n"

# letter -> (text of the template, ("component", name, class) | ("pyscript", files, keywords) | ("setup", ...) | ("text",) | ("map",))
TAGS = {
    "a": ('{% component "MOD.a" %}', ("component", "a", "")),
    "b": ("{% component 'MOD.b', class='one two' %}", ("component", "b", "one two")),
    "v": ("{% component which, class=cls %}", ("component", "b", None)),
    "text": ('<p id="app">text &amp; more</p>', ("text",)),
    "map": (f'<script type="importmap" id="reactpy-importmap">{OWN_MAP}</script>', ("map",)),
    "p": ("{% pyscript_component first %}", ("pyscript", ("first",), {})),
    "q": ("{% pyscript_component first, second, initial='<b>wait &amp; see</b>', root='other' %}",
          ("pyscript", ("first", "second"), {"initial": "<b>wait &amp; see</b>", "root": "other"})),
    "s": ("{% pyscript_setup 'numpy', extra_js='{\"/x.js\": \"x\"}', config='{\"name\": \"n\"}' %}",
          ("setup", ("numpy",), {"extra_js": '{"/x.js": "x"}', "config": '{"name": "n"}'})),
}
BAD = ['{% component "MOD.a", bad="x" %}', '{% component "MOD.a", class="x", id="y" %}', '{% component %}',
       '{% pyscript_component first, nothing="x" %}', '{% pyscript_component first, root="missing" %}']


class Page(HTMLParser):
    """The elements of a page in order; `place` counts the marks passed before."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.elements, self.open, self.place, self.plain = [], [], 0, []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        if tag == "mark-":
            self.place += 1
            return
        e = {"tag": tag, "attrs": {k: v or "" for k, v in attrs}, "text": "", "place": self.place, "depth": len(self.open)}
        self.elements.append(e)
        if tag not in ("br", "link", "meta", "img", "input", "hr"):
            self.open.append(e)

    def handle_endtag(self, tag):
        if self.open and self.open[-1]["tag"] == tag:
            self.open.pop()

    def handle_data(self, data):
        for e in self.open[-1:]:
            e["text"] += data
        if not self.open and data.strip():
            self.plain.append(data)


_node = None


def node(elements):
    global _node
    if _node is None or _node[0] != os.getpid():
        js = Path(__file__).resolve().parent.parent / "js" / "page.js"
        _node = (os.getpid(), subprocess.Popen(["node", "--experimental-vm-modules", "--no-warnings", str(js)],
                                               stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True))
    p = _node[1]
    p.stdin.write(json.dumps({"elements": elements}) + "\n")
    p.stdin.flush()
    return json.loads(p.stdout.readline())


_files = None


def files():
    global _files
    d = c_asgi.scratch()
    if _files is None or _files[0] != os.getpid():
        (d / "first.py").write_text(PROGRAM, encoding="utf8")
        (d / "second.py").write_text(SECOND, encoding="utf8")
        _files = (os.getpid(), {"first": str(d / "first.py"), "second": str(d / "second.py")})
    return _files[1]


ENV = {e: jinja2.Environment(extensions=[ReactPyJinja], autoescape=e) for e in (False, True)}
APPS = {}


async def wrapped(scope, receive, send):
    if scope["type"] == "http":
        await send({"type": "http.response.start", "status": 299, "headers": []})
        await send({"type": "http.response.body", "body": b"user"})


def app(prefix, settings):
    c_asgi.make_module()
    key = (os.getpid(), prefix, settings)
    kw = {**DEFAULTS, **SETTINGS[settings], "path_prefix": prefix, "web_modules_dir": c_asgi.scratch() / "mods"}
    if key not in APPS:
        APPS[key] = ReactPyMiddleware(wrapped, [f"{MODULE}.a", f"{MODULE}.b"], **kw)
    for k, v in kw.items():
        getattr(config, f"REACTPY_{k.upper()}").current = v
    return APPS[key], kw


SERVED = {}
CLIENT = Path(pu.__file__).resolve().parents[3] / "js" / "packages" / "@reactpy" / "app" / "src"


def serves(prefix, settings, url):
    """Whether the application under test serves the file at this URL of a page of its host."""
    key = (os.getpid(), prefix, settings, url)
    if key not in SERVED:
        u = urlsplit(urljoin("http://host.test/some/page?x=1", url))
        a, _ = app(prefix, settings)
        sent, exc = c_asgi.request(a, "http", u.path) if u.netloc == "host.test" else ([], None)
        # the files are made by a build of the client; what counts is that they are looked for and made
        name, _, ending = u.path.rpartition("/")[2].partition(".")
        made = CLIENT / f"{name}.ts"
        SERVED[key] = exc is None and c_asgi.http_result(sent)[0] in (200, 404) and u.path == f"{prefix}static/{name}.js" and made.exists()
    return SERVED[key]


def displays(prefix, settings, path):
    key = (os.getpid(), prefix, settings, "ws", path)
    if key not in SERVED:
        a, _ = app(prefix, settings)
        m = c_asgi.make_module()
        m.log.clear()
        c_asgi.request(a, "websocket", path)
        SERVED[key] = [x[0] for x in m.log]
    return SERVED[key]


def normal(html):
    """The same without what is chosen at random."""
    return re.sub(r"[0-9a-f]{32}", "ID", html)


def judge(case):
    word, prefix, settings, cls, auto = case
    res = Result(transitions=len(word))
    fs = files()
    a, kw = app(prefix, settings)
    text = "".join(f"<mark->{TAGS[x][0]}".replace("MOD", MODULE) for x in word)
    tpl = ENV[auto].from_string(f"<!doctype html><html><head></head><body>{text}<mark-></body></html>")
    given = cls if auto is False else cls
    page = tpl.render(which=f"{MODULE}.b", cls=given, **fs)
    p = Page(page)
    got = node(p.elements)
    out = res.failures
    out += got["errors"]
    # every component at its own place
    want = [(i + 1, d) for i, (_, d) in enumerate(TAGS[x] for x in word) if d[0] == "component"]
    places = {}
    for e in p.elements:
        places.setdefault(e["place"], []).append(e)
    ids = [e["attrs"]["id"] for e in p.elements if e["attrs"].get("id")]
    unique = [i for i in ids if i not in ("app", "reactpy-importmap")]
    if len(set(unique)) != len(unique):
        out.append(f"several elements have one of the identifiers {unique}")
    if [m["place"] for m in got["mounts"]] != [i for i, _ in want]:
        out.append(f"components are mounted at {[m['place'] for m in got['mounts']]} instead of {[i for i, _ in want]}")
    else:
        for m, (i, d) in zip(got["mounts"], want):
            o = m["options"]
            divs = [e for e in places[i] if e["tag"] not in ("script", "link", "style")]
            if len(divs) != 1 or divs[0]["text"].strip():
                out.append(f"the component at {i} is surrounded by {divs}")
            elif divs[0]["attrs"].get("class", "") != (cls if d[2] is None else d[2]):
                out.append(f"the component at {i} has the class {divs[0]['attrs'].get('class')!r} instead of {cls if d[2] is None else d[2]!r}")
            extra = set(divs[0]["attrs"]) - {"id", "class"} if len(divs) == 1 else ()
            if extra:
                out.append(f"the component at {i} has the attributes {sorted(extra)}")
            path = o.get("pathPrefix", "") + o.get("componentPath", "")
            if o.get("pathPrefix") != prefix or displays(prefix, settings, path) != [d[1]]:
                out.append(f"the component at {i} connects to {path}, where {displays(prefix, settings, path)} is displayed instead of {d[1]}")
            for k, name in (("reconnectInterval", "reconnect_interval"), ("reconnectMaxInterval", "reconnect_max_interval"),
                            ("reconnectMaxRetries", "reconnect_max_retries"), ("reconnectBackoffMultiplier", "reconnect_backoff_multiplier")):
                if o.get(k) != kw[name]:
                    out.append(f"the component at {i} is mounted with {k}={o.get(k)}, the setting is {kw[name]}")
            if not serves(prefix, settings, m["client"]):
                out.append(f"the client is loaded from {m['client']}, where it is not")
    # the import map
    if want:
        first = want[0][0]
        own = [i + 1 for i, x in enumerate(word) if x == "map"]
        maps = [json.loads(t)["imports"] for t in got["maps"]]
        if own and own[0] < first:
            if maps != [json.loads(OWN_MAP)["imports"]] * len(own):
                out.append(f"the page's import map is accompanied by {maps}")
        elif len(maps) != 1 + len(own):
            out.append(f"the page has {len(maps)} import maps: {maps}")
        else:
            default = next((x for x in maps if x != json.loads(OWN_MAP)["imports"]), {})
            if sorted(default) != ["react", "react-dom", "react-dom/client", "react/jsx-runtime"]:
                out.append(f"the default import map names {sorted(default)}")
            for k, u in default.items():
                if not serves(prefix, settings, u):
                    out.append(f"the default import map loads {k} from {u}, where nothing is served")
    # programs
    parts = re.split("<mark->", page)
    for i, x in enumerate(word):
        d = TAGS[x][1]
        if d[0] == "pyscript":
            args = tuple(fs[n] for n in d[1])
            if normal(parts[i + 1]) != normal(pu.pyscript_component_html(args, d[2].get("initial", ""), d[2].get("root", "root"))):
                out.append(f"the program at {i + 1} is embedded differently from pyscript_component_html")
            if len(set(re.findall(r"[0-9a-f]{32}", parts[i + 1]))) != 1:
                out.append(f"the program at {i + 1} has no place of its own")
        elif d[0] == "setup":
            if parts[i + 1] != pu.pyscript_setup_html(d[1], **d[2]):
                out.append(f"the setup at {i + 1} differs from pyscript_setup_html")
        elif d[0] in ("text", "map") and parts[i + 1].replace("</body></html>", "") != TAGS[x][0]:
            out.append(f"the text at {i + 1} was changed")
    res.states = [hash((word[:k], prefix, settings, cls, auto)) for k in range(1, len(word) + 1)]
    res.outcome = hash(normal(page))
    return res


def judge_bad(case):
    text, prefix = case
    res = Result()
    app(prefix, "default")
    try:
        page = ENV[False].from_string(text.replace("MOD", MODULE)).render(**files())
    except (ValueError, TypeError):
        return res
    res.failures.append(f"the tag {text} was accepted: {page[:200]}")
    return res


def cases(q):
    letters = list(TAGS)
    for n in (0, 1, 2, 3) if q else (0, 1, 2, 3, 4):
        for w in itertools.product(letters, repeat=n):
            full = n < 3
            for prefix in PREFIXES if full else PREFIXES[:2]:
                for s in SETTINGS if full else ["other"]:
                    for c in CLASSES if "v" in w and n < 3 else CLASSES[3:4]:
                        for auto in (False, True) if full else (True,):
                            yield w, prefix, s, c, auto


def main():
    chk = Check("C34")
    q = tier() == "quick"
    logging.disable(logging.CRITICAL)
    parent = c_asgi.scratch()
    pu._ensure_local_reactpy_wheel = lambda *a, **k: Path("/nowhere/reactpy-0-py3-none-any.whl")
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800))
    groups = [("pages", lambda: cases(q), judge), ("tags that are wrong", lambda: itertools.product(BAD, PREFIXES[:2]), judge_bad)]
    total, per = space.run(groups, deadline)
    shutil.rmtree(parent, ignore_errors=True)
    space.finish(chk, groups, total, per, rule="case = a page of template tags, rendered by Jinja; its scripts run in node, and what they mount and load is requested from the real application",
                 bound="all pages of up to 3 (thorough 4) of 8 kinds of tags and text, 5 path prefixes, 2 sets of settings, 6 class names, with and without autoescape",
                 assumptions=["module scripts run after the page has been parsed"])
    chk.done()


if __name__ == "__main__":
    main()
