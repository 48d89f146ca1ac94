"""C27: Python programs embedded for the browser, compared with the original programs on every bounded program."""
from __future__ import annotations

import ast
import asyncio
import html as stdhtml
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile
import time
import types
from html.parser import HTMLParser
from pathlib import Path

import reactpy
from reactpy.core.layout import Layout
from reactpy.executors.pyscript import utils
from reactpy.executors.pyscript.components import pyscript_component
from reactpy.executors.asgi.pyscript import ReactPyCsr
from reactpy.executors.asgi.standalone import ReactPy

from mc import space
from mc.app import Client
from mc.report import Check, known_findings, tier
from mc.space import Result

utils._reactpy_pkg_string = lambda: "/reactpy/static/wheels/reactpy-0-py3-none-any.whl"  # building a wheel is not the subject
Q3 = "'''"
D3 = '"""'
# every chunk binds v to something which depends on how its text was treated
CHUNKS = [
    'v = "a#b"',
    "v = 'a # b'  # c",
    f"v = {D3}x\n    y\n\ty\n  z{D3}",
    f"v = {Q3}\n# no comment\n\n\n   \nend   \n{Q3}",
    f"v = [\n    {D3}doc{D3},\n\n    {D3}other{D3},\n]",
    'v = [\n    "a",  # first\n\n    "#b",\n    # last\n]',
    f"def f():\n    {D3}doc{D3}\n    return 1\nv = f()",
    f"def f():\n    {D3}only # doc{D3}\nv = f()",
    f"def f():\n    {D3}First\n\n      Second\n    {D3}\n    return 1\nv = f.__doc__",
    'v = "a\tb"',
    "if True:\n\tv = 1\n\tif v:\n\t\tv = 2\n\n\telse:\n\t\tv = 3",
    "v = f\"{1 + 1}#{'x' * 2}\"",
    f"v = f{D3}{{1 +\n1}}\n  # {{'#'}}\n    {{2}}\n{D3}",
    f"v = f{Q3}a\n  {{f'b#{{1}}'}}\n    c{Q3} + 'x'",
    "v = \"line \\\n   continued # \\\n\tagain\"",
    "v = 1 + \\\n    2  # sum",
    "v = 1 \\\n\nw = 2",
    f"# {D3}\nv = 1\n# {D3}",
    'v = r"\\d#\\n"',
    'v = b"#\\n<b>"',
    f'v = ("a" {D3}b\n\n\nc{D3}\n   # d\n   "e")',
    f"class C:\n    {Q3}doc{Q3}\n    x = '#'\n\n\n    def m(self):\n        # note\n        return self.x  # \"\n\n    y = 1\nv = C().m()",
    "v = 'ü 漢 \u2028 \x0b \x85 #'",
    f"v = {Q3}a\u2028b\n\x0cc\x1cd{Q3}",
    'v = "<b>&amp;</b> ]]> & \' <!-- x -->"',
    "v = '</div></body> &lt;' + \"<script>\"",
    "v = 'UUID return root() user_workspace_UUID'",
    f"v = {Q3}\n    def root(): ...\n    return root()\n{Q3}",
    "import math\nv = math.floor(2.5)",
    "v = [(lambda: i)() for i in range(3)]; w = 1",
    "@staticmethod\ndef f(): return 'x'\nv = f()",
    "v = {\n  'a': 1,\n\n# c\n  'b': (\n2),}",
    "for i in range(3):  # loop\n\n  # odd indentation\n  v = i\n\n# after",
    "try:\n  v = 1/0\nexcept ZeroDivisionError: v = 'z'\nfinally:\n    pass\n",
    "v = 'a' if '#' in '#' else 'b'",
    "v = '''a''' '''#'''",
    'v = """\\\n  x\\\n#\n"""',
    "v = '</script>'",
    f"v = f{D3}</script>{{1}}\n  <!-- <script>{D3}",
    "v = b'</SCRIPT >'",
    "v = '\\\\</script>' + '<!--<script>'",
    "v = r'''\n  </scrip>\\ #'''",
    "v = 1 if True else (\n  2\n)",
    f"v = f{D3}a\n  # b\n   {D3}",
    "v = br'<!-- \\d' + Rb'\n  <!--'.replace(b'n', b'm') + bR'x'".replace("Rb'\n  ", "Rb'\\n  "),
    f"v = rF{Q3}<!-- {{1}}\n  \\d{Q3} + Fr'<!--' + R'<!--'",
]
# chunks whose order and number matter
ORDERED = ["t.append(1)", "t.append(2)", "v = len(t)"]
KNOWN = {"raw-script-end": "v = r'</script>'", "raw-comment": "v = r'<!--' + '<script>'"}
WHY = {"raw-script-end": "a raw string containing </script> ends the embedded program",
       "raw-comment": "a raw string containing <!-- and a later string containing <script hide the end of the embedded program"}


def unescapable(chunks):
    """Raw strings cannot be escaped: <!-- in one and <script somewhere after it (see KNOWN)."""
    return hides_script_end("\n".join(chunks)) and any(c in CHUNKS[-2:] for c in chunks)
ROOTS = [
    ("root", "def root():\n    return {names}"),
    ("root", "def root() -> object:\n    # all\n    return {names}\n"),
    ("root", "@(lambda f: f)\ndef root():\n\n\treturn {names}"),
    ("main", "def main(x=None):\n    {D3}doc{D3}\n    return {names}"),
    ("root", "import asyncio\ndef root(): return {names}"),
    ("root", "if True:\n  def root ( ):\n    return {names}"),
]


class Scripts(HTMLParser):
    """The scripts of a page as a browser sees them."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.scripts = []
        self.inside = False
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        if tag == "script":
            self.scripts.append((dict(attrs), []))
            self.inside = True

    def handle_endtag(self, tag):
        if tag == "script":
            self.inside = False

    def handle_data(self, data):
        if self.inside:
            self.scripts[-1][1].append(data)


def page_scripts(text):
    # html.parser ends a script at the first end tag; in a browser a comment which contains "<script" hides it
    return [(a, "".join(d)) for a, d in Scripts(text).scripts]


def hides_script_end(code):
    i = code.find("<!--")
    return i >= 0 and "<script" in code[i:].lower()


def original(chunks, root_src, name):
    ns = {"__name__": "user"}
    exec(compile("\n".join([*chunks, root_src]), "<user>", "exec"), ns)
    return ns[name]()


class Handler:
    ran = []

    def __init__(self, uuid):
        self.uuid = uuid

    async def run(self, fn):
        Handler.ran.append((self.uuid, fn()))


fake = types.ModuleType("reactpy.executors.pyscript.layout_handler")
fake.ReactPyLayoutHandler = Handler


def embedded(code):
    """What the embedded program computes, the way the browser runs it."""
    Handler.ran = []
    sys.modules[fake.__name__] = fake
    real = asyncio.create_task

    def create_task(coro):
        try:
            coro.send(None)
        except StopIteration:
            pass

    asyncio.create_task = create_task
    try:
        ns = {"__name__": "__main__"}
        exec(compile(code, "<py>", "exec"), ns)
    finally:
        asyncio.create_task = real
        del sys.modules[fake.__name__]
    return Handler.ran


_dir = None


def scratch():
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix="p-", dir=os.environ["VERIF_SCRATCH"]), itertools.count())
    return _dir[1], next(_dir[2])


def write(texts, crlf=False):
    d, n = scratch()
    paths = []
    for i, t in enumerate(texts):
        p = Path(d, f"{n}-{i}.py")
        p.write_bytes((t.replace("\n", "\r\n") if crlf else t).encode())
        paths.append(str(p))
    getattr(utils.fetch_cached_python_file, "cache_clear", lambda: None)()
    return paths


def model_text(model):
    """HTML which a browser client builds for a model (text of scripts is not parsed)."""
    if isinstance(model, str):
        return stdhtml.escape(model)
    inner = [model_text(c) if model["tagName"] != "script" else str(c) for c in model.get("children", [])]
    if not model["tagName"]:
        return "".join(inner)
    return f"<{model['tagName']}>{''.join(inner)}</{model['tagName']}>"


def find_script(model):
    if isinstance(model, dict):
        if model["tagName"] == "script":
            return "".join(model.get("children", [])), model.get("attributes", {})
        for c in model.get("children", []):
            r = find_script(c)
            if r:
                return r
    return None


async def via_component(paths, root):
    async with Layout(pyscript_component(*paths, initial="<p>wait</p>", root=root)) as layout:
        client = Client()
        for _ in range(2):
            client.apply(await layout.render())
        return find_script(client.view)


def programs(q):
    split = ("one", "many")
    for root in ROOTS:
        for c in CHUNKS:
            for s in split:
                for crlf in (False, True):
                    yield (c,), root, s, crlf, "all"
    for c in CHUNKS:
        yield ("\n\n" + c + "\n\n\n",), ROOTS[0], "one", False, "all"
        for tail in ("", "\n", "  # end", "\n# end", "\n\n"):
            yield (c + tail,), ROOTS[0], "many", False, "html"
    for n in (1, 2, 3):
        for t in itertools.product(ORDERED, repeat=n):
            yield ("v = t = [0]", *t), ROOTS[0], "many", False, "all" if n < 3 else "html"
    pairs = itertools.product(CHUNKS, repeat=2)
    for i, (a, b) in enumerate(pairs):
        if unescapable((a, b)):
            continue
        yield (a, b), ROOTS[i % len(ROOTS)], split[i % 2], False, "html"
    for i, t in enumerate(itertools.product(CHUNKS, repeat=3)):
        if unescapable(t):
            continue
        yield t, ROOTS[i % len(ROOTS)], split[i % 2], False, "html"
    if not q:
        for t in itertools.product(CHUNKS[::2], repeat=3):
            for root in ROOTS if not unescapable(t) else ():
                yield t, root, "many", True, "html"
    for ident, c in KNOWN.items():
        yield (c,), ROOTS[0], "one", False, ident


def judge_program(case):
    chunks, (name, root_src), split, crlf, route = case
    chunks = [c.replace("v = ", f"v{i} = ").replace("return v", f"return v{i}").replace("\n\tif v:", f"\n\tif v{i}:") for i, c in enumerate(chunks)]
    root_src = root_src.replace("{D3}", D3).replace("{names}", "[" + ", ".join(f"v{i}" for i in range(len(chunks)) if f"v{i}" in chunks[i]) + "]")
    res = Result(states=[hash(case)])
    want = original(chunks, root_src, name)
    paths = write(["\n".join([*chunks, root_src])] if split == "one" else [*chunks, root_src], crlf)
    routes = {"html": ["html"], "all": ["exec", "html", "component", "csr"]}.get(route, ["html"])
    for r in routes:
        try:
            if r == "exec":
                code = utils.pyscript_executor_html(paths, "0a1b", name)
            elif r == "html":
                page = utils.pyscript_component_html(paths, "", name)
                code = page_scripts(page)[0][1]
            elif r == "component":
                loop = asyncio.new_event_loop()
                try:
                    code, attrs = loop.run_until_complete(via_component(paths, name))
                finally:
                    loop.close()
                if attrs.get("type") != "py":
                    res.failures.append(f"{r}: the script has the attributes {attrs}")
            else:
                app = ReactPyCsr(*paths, root_name=name)
                page = fetch(app)
                code = page_scripts(page)[-1][1]
            if hides_script_end(code):
                raise ValueError("the end of the script is hidden from the browser")
            got = embedded(code)
            res.transitions += 1
            if len(got) != 1 or repr(got[0][1]) != repr(want):
                res.failures.append(f"{r}: the embedded program computes {got!r}, the original {want!r}")
        except Exception as e:
            res.failures.append(f"{r}: {type(e).__name__}: {e}; the original computes {want!r}")
    if route in KNOWN and res.failures and any(k["id"] == route for k in known_findings("C27")):
        res.known.append((route, WHY[route]))
        res.failures = []
    res.outcome = hash(repr(want))
    return res


def fetch(app):
    """The index page as an HTTP client gets it."""
    out = []

    async def receive():
        return {"type": "http.request", "body": b"", "more_body": False}

    async def send(m):
        out.append(m)

    scope = {"type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": "GET", "scheme": "http", "path": "/", "raw_path": b"/",
             "query_string": b"", "root_path": "", "headers": [(b"host", b"h")], "client": ("c", 1), "server": ("s", 80), "extensions": {}}
    loop = asyncio.new_event_loop()
    try:
        loop.run_until_complete(app(scope, receive, send))
    finally:
        loop.close()
    return b"".join(m.get("body", b"") for m in out).decode()


# ---- configuration
TEXTS = ["plain", "it's", 'say "x"', "a&b", "a&copy=1&lt;", "<b></script>", "\\n\\", "ü 漢\u2028", "&#39;&quot;", "a='b' c=\"d\" &amp;", "", "{}", "</head>", "\n\t"]


def configs(q):
    for t in TEXTS:
        for where in ("extra_py", "extra_js", "config"):
            for form in ("dict", "str"):
                for route in ("setup", "standalone", "csr"):
                    yield where, form, route, (t,)
    for a, b in itertools.product(TEXTS, repeat=2):
        yield "config", "dict", "setup", (a, b)
        yield "extra_js", "str", "standalone", (a, b)


def judge_config(case):
    where, form, route, texts = case
    res = Result(states=[hash(case)])
    kw = {"extra_py": [], "extra_js": {}, "config": {}}
    if where == "extra_py":
        kw["extra_py"] = list(texts)
    elif where == "extra_js":
        kw["extra_js"] = {f"/x{i}{t}.js": t for i, t in enumerate(texts)}
    else:
        kw["config"] = {"name": texts[0], "list": list(texts), "x" + texts[-1]: {"y": texts[-1]}}
    args = dict(kw)
    if form == "str" and where != "extra_py":
        args[where] = json.dumps(kw[where])
    want = {"packages": ["/reactpy/static/wheels/reactpy-0-py3-none-any.whl", "jsonpointer==3.*", *kw["extra_py"]],
            "js_modules": {"main": {"/reactpy/static/morphdom/morphdom-esm.js": "morphdom", **kw["extra_js"]}},
            "packages_cache": "never", **kw["config"]}
    if route == "setup":
        page = utils.pyscript_setup_html(args["extra_py"], args["extra_js"], args["config"])
    elif route == "csr":
        (path,) = write(["def root():\n    return 1"])
        app = ReactPyCsr(path, extra_py=args["extra_py"], extra_js=args["extra_js"], pyscript_config=args["config"])
        page = fetch(app)
    else:
        app = ReactPy(root_component, pyscript_setup=True, pyscript_options=args)
        page = fetch(app)
    scripts = [(a, c) for a, c in page_scripts(page) if a.get("type") == "py" and "config" in a]
    res.transitions = 1
    if len(scripts) != 1:
        res.failures.append(f"{len(scripts)} scripts with a configuration")
    else:
        try:
            got = json.loads(scripts[0][0]["config"])
        except ValueError as e:
            got = f"{e}: {scripts[0][0]['config']!r}"
        if got != want:
            res.failures.append(f"the browser gets the configuration {got!r}, not {want!r}")
        res.failures += same_program("layout_handler.py", scripts[0][1])
    res.outcome = hash(repr(sorted(want.items(), key=str)))
    return res


@reactpy.component
def root_component():
    return reactpy.html.div("x")


def strip_docs(tree):
    for n in ast.walk(tree):
        b = getattr(n, "body", None)
        if isinstance(b, list) and len(b) > 1 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b.pop(0)
    return ast.dump(tree)


_dumps = {}


def same_program(name, code):
    """The embedded framework code is its source, apart from docstrings."""
    if name not in _dumps:
        _dumps[name] = strip_docs(ast.parse((Path(utils.__file__).parent / name).read_text()))
    try:
        got = strip_docs(ast.parse(code))
    except SyntaxError as e:
        return [f"the embedded {name} is no program: {e}"]
    return [] if got == _dumps[name] else [f"the embedded {name} differs from its source"]


# ---- minification by itself
# ---- what is displayed until the program runs
class Tree(HTMLParser):
    VOID = {"br", "img", "input", "hr", "meta", "link"}

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = self.at = ("", {}, [])
        self.up = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        n = (tag, dict(attrs), [])
        self.at[2].append(n)
        if tag not in self.VOID:
            self.up.append(self.at)
            self.at = n

    def handle_endtag(self, tag):
        if tag not in self.VOID and self.up:
            self.at = self.up.pop()

    def handle_data(self, data):
        self.at[2].append(data)


def tree(text):
    def norm(n):
        if isinstance(n, str):
            return n
        kids = []
        for k in n[2]:
            if isinstance(k, str) and kids and isinstance(kids[-1], str):
                kids[-1] += k
            else:
                kids.append(norm(k))
        return (n[0], {k: v or "" for k, v in n[1].items()}, kids)
    return norm(Tree(text).root)[2]


def dom_of(m):
    if isinstance(m, str):
        return [m]
    kids = [x for c in m.get("children", []) for x in dom_of(c)]
    names = {"className": "class"}
    return [(m["tagName"], {names.get(k, k): "" if v is True else str(v) for k, v in m.get("attributes", {}).items() if k not in ("key", "style")}, kids)] if m["tagName"] else kids


@reactpy.component
def Waiting(n):
    return reactpy.html.div({"className": "w"}, "wait ", reactpy.html.b(str(n)), Waiting(n - 1) if n else "")


WAITING = {
    "": "", "text": "text", "a &lt; b": "a &lt; b", "<p>a</p>": "<p>a</p>", "<i>x</i> tail": "<i>x</i> tail", "a<br>b": "a<br>b",
    "<p class='c' title=\"q&quot;\">l\u00e4dt \u6f22<b>1</b> 2</p>": "<p class='c' title=\"q&quot;\">l\u00e4dt \u6f22<b>1</b> 2</p>",
    "vdom": (lambda: reactpy.html.p({"title": "<'\"&>"}, "a & <b>", reactpy.html.br(), "c"), "<p title=\"<'&quot;&amp;>\">a &amp; &lt;b&gt;<br>c</p>"),
    "fragment": (lambda: reactpy.html._(reactpy.html.p("1"), "2"), "<p>1</p>2"),
    "component": (lambda: Waiting(0), "<div class=w>wait <b>0</b></div>"),
    "components": (lambda: Waiting(1), "<div class=w>wait <b>1</b><div class=w>wait <b>0</b></div></div>"),
    "element of components": (lambda: reactpy.html.div(Waiting(0), Waiting(0)), "<div><div class=w>wait <b>0</b></div><div class=w>wait <b>0</b></div></div>"),
}


def initials(q):
    for name in WAITING:
        for route in ("html", "component", "csr"):
            for chunk in CHUNKS[:1] + CHUNKS[-4:-2]:
                yield name, route, chunk


def judge_initial(case):
    name, route, chunk = case
    w = WAITING[name]
    initial, want = (w[0](), w[1]) if isinstance(w, tuple) else (name, w)
    want = tree(want)
    paths = write([chunk, "def root(): return v"])
    res = Result(states=[hash(case)], transitions=1)
    try:
        if route == "html":
            got = tree(utils.pyscript_component_html(paths, initial, "root"))
        elif route == "csr":
            def find(n):
                if isinstance(n, tuple):
                    if n[1].get("class") == "pyscript":
                        return n
                    for c in n[2]:
                        r = find(c)
                        if r:
                            return r
            got = [find(("", {}, tree(fetch(ReactPyCsr(*paths, initial=initial)))))]
        else:
            async def view():
                async with Layout(pyscript_component(*paths, initial=initial)) as layout:
                    client = Client()
                    for _ in range(2):
                        client.apply(await asyncio.wait_for(layout.render(), 5))
                    return client.view
            loop = asyncio.new_event_loop()
            try:
                got = dom_of(loop.run_until_complete(view()))
            finally:
                loop.close()
    except Exception as e:
        res.failures.append(f"{case}: {type(e).__name__}: {e}")
        return res
    box = (got or [("nothing", {}, [])])[0]
    if box[0] != "div" or box[1].get("class") != "pyscript" or not box[1].get("id", "").endswith(box[1].get("data-uuid", "-")):
        res.failures.append(f"{case}: the page shows {box}")
    elif box[2] != want:
        res.failures.append(f"{case}: shows {box[2]} until the program runs, not {want}")
    res.outcome = hash(repr(want))
    return res


def fragments(q):
    """Texts over an alphabet of tokens, of which those that are programs are compared."""
    al = ["#", "'", '"', "'''", '"""', "\n", "x", " ", "\\", "\t"]
    for n in range(1, 7 if q else 8):
        yield from itertools.product(al, repeat=n)


def judge_fragment(case):
    text = "".join(case)
    res = Result(states=[hash(text)])
    import warnings
    warnings.simplefilter("ignore")
    try:
        want = ast.dump(ast.parse(text.strip()))
    except SyntaxError:
        return res
    if text.strip().split("\n")[-1].strip().startswith("#") and "\\\n" in text.strip():
        return res  # a backslash before the last line, which is a comment: nobody writes this
    try:
        got = ast.dump(ast.parse(utils.minify_python(text.strip())))
    except SyntaxError as e:
        got = f"SyntaxError {e}"
    res.transitions = 1
    if got != want:
        res.failures.append(f"minified {text.strip()!r} is {utils.minify_python(text.strip())!r}")
    res.outcome = hash(want)
    return res


def main():
    chk = Check("C27")
    q = tier() == "quick"
    logging.disable(logging.CRITICAL)
    base = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-embed-")
    groups = [("programs", lambda: programs(q), judge_program), ("initial", lambda: initials(q), judge_initial), ("configurations", lambda: configs(q), judge_config),
              ("fragments", lambda: fragments(q), judge_fragment)]
    try:
        total, per = space.run(groups, time.time() + float(os.environ.get("VERIF_BUDGET", 400 if q else 800)))
        space.finish(chk, groups, total, per, rule="one original program run against what the real embedding code produced, per program, route and configuration",
                     bound=f"programs of up to 3 of {len(CHUNKS)} constructs, split over files or not; all texts of up to 6 (thorough 7) tokens for the minifier; {len(TEXTS)} configuration texts in every place; {len(WAITING)} initial contents",
                     assumptions=["the embedded program is the body of a function: module-level global statements and __future__ imports are out of scope",
                                  "PyScript executes the text content of the script element"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    chk.done()


if __name__ == "__main__":
    main()
