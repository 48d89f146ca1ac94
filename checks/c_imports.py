"""C26: JavaScript imports - every bounded module source, module graph and history of imports."""
from __future__ import annotations

import hashlib
import itertools
import json
import logging
import os
import shutil
import sys
import tempfile
import time
import warnings
from pathlib import Path

import requests

from reactpy import config, reactjs
from reactpy.web import module as web_modules
from reactpy.reactjs.module import file_to_module, module_to_vdom, string_to_module, url_to_module
from reactpy.reactjs.utils import resolve_names_from_source
from reactpy.types import JavaScriptModule

from mc import space
from mc.report import Check, known_findings, tier
from mc.space import Result

# ---- export grammar: (source, names, references); N is replaced by a number per position
FORMS = [
    ("export let aN", "aN", ""),
    ("export let aN = 1, bN, cN = 'x,y'", "aN bN cN", ""),
    ("export const aN = 1", "aN", ""),
    ("export const aN=1,bN=2", "aN bN", ""),
    ("export const aN = f(1, 2), bN = {x: 1, y: [2, 3]}, cN = `q,${1}`", "aN bN cN", ""),
    ("export var aN, $bN", "aN $bN", ""),
    ("export const aN = (p, q) => {\n  const r = p, s = q\n  return r\n}", "aN", ""),
    ("export const { aN, bN } = o", "aN bN", ""),
    ("export const { aN = 1, ...bN } = o", "aN bN", ""),
    ("export const {\n  aN,\n  bN,\n} = o", "aN bN", ""),
    ("export const [aN, bN = 2] = o", "aN bN", ""),
    ("export function aN(x) { return x }", "aN", ""),
    ("export function aN(x) {\n  return x\n}", "aN", ""),
    ("export async function _aN() {}", "_aN", ""),
    ("export function* aN() {}", "aN", ""),
    ("export function a$N$_() {}", "a$N$_", ""),
    ("export class $aN_ {}", "$aN_", ""),
    ("export async function *aN() {}", "aN", ""),
    ("export class aN {}", "aN", ""),
    ("export class AN extends React.Component {\n  render() { return null }\n}", "AN", ""),
    ("export { aN }", "aN", ""),
    ("export { aN, bN as cN }", "aN cN", ""),
    ("export {\n  aN,\n  bN as cN,\n}", "aN cN", ""),
    ("export{aN as bN,cN}", "bN cN", ""),
    ("export {}", "", ""),
    ("export * from './mN.js'", "", "./mN.js"),
    ('export * from "https://x.y/mN.js"', "", "https://x.y/mN.js"),
    ('export*from"./mN.js"', "", "./mN.js"),
    ("export * as aN from './mN.js'", "aN", ""),
    ("export { aN, bN as cN } from './mN.js'", "aN cN", ""),
    ('export{aN,bN as cN}from"./mN.js"', "aN cN", ""),
    # not exports
    ("import xN, { yN } from './mN.js'", "", ""),
    ("const exportN = 1, bN = 2", "", ""),
    ("function fN(a) { return a }", "", ""),
    ("o.exports = { aN: 1 }", "", ""),
    ("// about aN", "", ""),
    ("/* about\n   aN */", "", ""),
]
DEFAULTS = ["export default 1", "export default function () {}", "export default function fN() {}", "export default class {}",
            "export default class CN extends X {}", "export default{a:1}", "export default(1)", "export default async function () {}",
            "export { aN as default }", "export{aN as default}", "export { default } from './m.js'", "export { aN as default } from './m.js'"]
RENAMED = ("export const { aN, bN: cN } = o", "aN cN", "")
RENAMED_KNOWN = "aN bN"
SEPS = ["\n", ";\n", ";"]


def sources(q):
    def build(forms, sep, default):
        texts, names, refs = [], set(), set()
        for i, (t, n, r) in enumerate(forms):
            texts.append(t.replace("N", str(i)))
            names |= {x.replace("N", str(i)) for x in n.split()}
            refs |= {x.replace("N", str(i)) for x in r.split()}
            if t.startswith("//") and sep == ";":
                texts[-1] += "\n"
            if t.startswith("/*") and sep == ";":
                texts[-1] += "\n"
        if default:
            texts.append(default.replace("N", "9"))
        return sep.join(texts) + ("" if sep == "\n" else ";"), names | ({"default"} if default else set()), refs

    for n in (1, 2) if q else (1, 2, 3):
        for forms in itertools.product(FORMS, repeat=n):
            for sep in SEPS:
                yield (*build(forms, sep, None), None)
    for forms in itertools.chain(((),), ((f,) for f in FORMS)):
        for d in DEFAULTS:
            for sep in SEPS:
                yield (*build(forms, sep, d), None)
    if q:
        for forms in itertools.product(FORMS[::3], FORMS[::2], FORMS[1::3]):
            yield (*build(forms, ";", None), None)
    for sep in SEPS:
        for f in FORMS:
            t, n, r = build((RENAMED, f), sep, None)
            yield t, n, r, (n - {"c0"}) | {"b0"}


def judge_source(case):
    text, names, refs, known = case
    res = Result(states=[hash(text)])
    for excl in (False, True):
        want = names - {"default"} if excl else names
        got = resolve_names_from_source(text, exclude_default=excl)
        res.transitions += 1
        if got[1] != refs:
            res.failures.append(f"references {sorted(got[1])}, not {sorted(refs)}")
        if got[0] != want:
            if known is not None and got[0] == known and any(k["id"] == "renamed-destructuring" for k in known_findings("C26")):
                res.known.append(("renamed-destructuring", "`export const { a, b: c } = o` exports a and c, but b is resolved instead of c"))
            else:
                res.failures.append(f"resolved {sorted(got[0])}, not {sorted(want)} (exclude_default={excl})")
    res.outcome = hash(tuple(sorted(names)))
    return res


# ---- module graphs
class Web:
    """What is reachable under which URL."""

    def __init__(self):
        self.pages = {}
        self.asked = []

    def get(self, url, **kw):
        self.asked.append(url)
        if url not in self.pages:
            raise requests.exceptions.ConnectionError(url)
        r = requests.models.Response()
        r.status_code = 200
        r._content = self.pages[url].encode()
        r.encoding = "utf-8"
        return r


web = Web()
requests.get = web.get
_dir = None


def scratch():
    """A directory of this process below the one main() removes."""
    global _dir
    if _dir is None or _dir[0] != os.getpid():
        _dir = (os.getpid(), tempfile.mkdtemp(prefix="p-", dir=os.environ["VERIF_SCRATCH"]))
        os.mkdir(_dir[1] + "/src")
    return _dir[1]


def fresh():
    d = scratch()
    shutil.rmtree(d + "/web", ignore_errors=True)
    os.mkdir(d + "/web")
    config.REACTPY_WEB_MODULES_DIR.current = Path(d + "/web")
    for cache in (reactjs._URL_JS_MODULE_CACHE, reactjs._FILE_JS_MODULE_CACHE, reactjs._STRING_JS_MODULE_CACHE):
        cache.clear()
    web.pages.clear()
    return d


PLACES = [("a.js", "b.js", "c.js"), ("a.js", "sub/b.js", "sub/c.js"), ("x/a.js", "b.js", "y/z/c.js")]


def graphs(q):
    edges = [(i, j) for i in range(3) for j in range(3) if i != j]
    for kind in ("file", "url", "mixed"):
        for places in PLACES if not q or kind != "mixed" else PLACES[:1]:
            for mask in range(64):
                es = [e for k, e in enumerate(edges) if mask >> k & 1]
                if any(i for i, j in es) and not any(i == 0 for i, j in es):
                    continue
                for depth in (1, 2, 3, 5) if not q else (1, 2, 3):
                    for default in (True, False) if kind == "mixed" or depth > 1 else (True,):
                        yield kind, places, tuple(es), depth, default


def judge_graph(case):
    kind, places, es, depth, default = case
    d = fresh()
    src = d + "/src"
    shutil.rmtree(src)
    base = "https://host.test/lib/"
    text = []
    for i, p in enumerate(places):
        up = "../" * p.count("/")
        t = f"export const n{i} = 1;\n"
        if i or default:
            t += "export default function () {};\n"
        for a, b in es:
            if a == i:
                ref = (up or "./") + places[b]
                if kind == "mixed":
                    ref = base + places[b]
                t += f"export * from '{ref}';\n"
        text.append(t)
        f = Path(src, p)
        f.parent.mkdir(parents=True, exist_ok=True)
        f.write_text(t)
        web.pages[base + p] = t
    dist = {0: 0}
    todo = [0]
    while todo:
        i = todo.pop(0)
        for a, b in es:
            if a == i and b not in dist:
                dist[b] = dist[i] + 1
                todo.append(b)
    want = {f"n{i}" for i, k in dist.items() if k < depth} | ({"default"} if default else set())
    res = Result(states=[hash(case)])
    if kind == "url":
        m = url_to_module(base + places[0], resolve_imports_depth=depth)
    else:
        m = file_to_module("g", Path(src, places[0]), resolve_imports_depth=depth)
    if m.import_names != want:
        res.failures.append(f"resolved {sorted(m.import_names)}, not {sorted(want)}")
    res.outcome = hash(tuple(sorted(want)))
    return res


# ---- histories of imports
CONTENT = {"1": "export const A = 1;\nexport const B = 2;", "2": "export const A = 3;\nexport class C {}", "3": "export default 1;\nexport const A = 4;"}
CONTENT["o/1"] = CONTENT["2"]  # the same file name in another directory
EXPORTS = {"1": {"A", "B"}, "2": {"A", "C"}, "3": {"default", "A"}, "o/1": {"A", "C"}}


def ops(q):
    out = []
    # (kind, name or url, content, import names, options)
    for kind in ("string", "file", "url"):
        for name in ("m", "n"):
            for c in "12":
                if kind == "url" and (name == "m") != (c == "1"):
                    continue
                out.append((kind, name, c, "A", {}))
        out.append((kind, "m", "1", "A", {"fallback": "wait"}))
        out.append((kind, "m", "1", "B", {"unmount_before_update": True}))
        out.append((kind, "m", "1", "C", {}))
        out.append((kind, "m", "1", "C", {"resolve_imports": False}))
        out.append((kind, "m", "1", ["A", "B"], {"fallback": "other", "allow_children": False}))
        out.append((kind, "m", "1", ("A", "C", "X.Y"), {}))
        out.append((kind, "m", "1", "A.Sub", {"resolve_imports_depth": 1}))
        out.append((kind, "m", "1", "A", {"resolve_imports_depth": 0}))
        out.append((kind, "m", "1", "C.Sub", {}))
        # the way it was done before: a module with a fallback of its own
        out.append((kind, "m", "1", "A", {"module_fallback": "early"}))
        out.append((kind, "m", "1", "A", {"module_fallback": "early", "fallback": "late"}))
        out.append((kind, "m", "1", "X", {"resolve_imports": None, "fallback": "wait"}))
    out.append(("string", "", "1", "A", {}))
    out.append(("string", "", "2", "C", {}))
    out.append(("file", "", "1", "A", {}))
    out.append(("file", "", "2", "C", {}))
    out.append(("file", "m", "2", "C", {"symlink": True}))
    out.append(("file", "m", "1", "B", {"symlink": True}))
    out.append(("string", "m", "3", "default", {}))
    out.append(("file", "", "o/1", "C", {}))
    out.append(("file", "m", "o/1", "A", {}))
    out.append(("string", "m.js", "2", "C", {}))
    for name in ("m.mjs", "@s/m", "@s/m@1.2", "m@1.2", "m@1.2/sub/n", "m@1.2/n.mjs", "s/n.js"):
        out.append(("string", name, "1", "A", {}))
        out.append(("file", name, "2", "A", {}))
    return out


def histories(q):
    al = ops(q)
    for n in (1, 2):
        yield from itertools.product(al, repeat=n)
    if q:
        small = [o for o in al if o[1] in ("m", "m.js") and (o[4] or o[3] != "A" or o[2] == "2")]
        yield from itertools.product(small[::2], small[1::2], small[::3])
    else:
        yield from itertools.product(al, repeat=3)


def perform(d, op):
    kind, name, c, names, opts = op
    opts = {"resolve_imports": True, **opts}
    if opts["resolve_imports"] is None:
        del opts["resolve_imports"]
    if "module_fallback" in opts:
        opts = dict(opts)
        later = {k: opts.pop(k) for k in ("fallback", "allow_children") if k in opts}
        opts = {k.replace("imports", "exports"): v for k, v in opts.items()} | {"fallback": opts["module_fallback"]}
        del opts["module_fallback"]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if kind == "string":
                m = web_modules.module_from_string(name, CONTENT[c], **opts)
            elif kind == "file":
                m = web_modules.module_from_file(name, Path(d, "src", f"{c}.js"), **opts)
            else:
                m = web_modules.module_from_url(f"https://host.test/{name}.js", **opts)
            return web_modules.export(m, names, **later)
    if kind == "string":
        return reactjs.component_from_string(CONTENT[c], names, name=name, **opts)
    if kind == "file":
        return reactjs.component_from_file(Path(d, "src", f"{c}.js"), names, name=name, **opts)
    return reactjs.component_from_url(f"https://host.test/{name}.js", names, **opts)


def judge_history(history):
    d = fresh()
    for c, t in CONTENT.items():
        Path(d, "src", f"{c}.js").parent.mkdir(exist_ok=True)
        Path(d, "src", f"{c}.js").write_text(t)
    web.pages.update({"https://host.test/m.js": CONTENT["1"], "https://host.test/n.js": CONTENT["2"]})
    res = Result(transitions=0)
    past = []
    for i, op in enumerate(history):
        kind, name, c, names, opts = op
        try:
            got = perform(d, op)
        except ValueError as e:
            got = e
        res.transitions += 1
        ask = [names] if isinstance(names, str) else list(names)
        bad = sorted({a.split(".")[0] for a in ask} - EXPORTS[c])
        resolve = opts.get("resolve_imports", True)  # None: by default nothing is resolved
        if opts.get("resolve_imports_depth") == 0:
            bad = sorted({a.split(".")[0] for a in ask})
        where = f"import {i} {op}"
        if resolve and bad:
            if not isinstance(got, ValueError):
                res.failures.append(f"{where} succeeded although {bad} is not exported")
            elif not all(repr(b) in str(got) or repr(a) in str(got) for b, a in zip(bad, sorted(ask) if len(bad) == len(ask) else bad)):
                res.failures.append(f"{where}: the error {got} does not name {bad}")
        elif isinstance(got, ValueError):
            res.failures.append(f"{where} failed: {got}")
        else:
            made = [got] if isinstance(names, str) else got
            if not isinstance(made, list) or len(made) != len(ask):
                res.failures.append(f"{where} returned {made!r}")
                continue
            for a, make in zip(ask, made):
                el = make({"id": "x"})
                src = el.get("importSource") or {}
                if el["tagName"] != a:
                    res.failures.append(f"{where} makes elements {el['tagName']!r}")
                if (src.get("fallback") or None) != opts.get("fallback", opts.get("module_fallback")):
                    res.failures.append(f"{where} shows the fallback {src.get('fallback')!r}")
                if bool(src.get("unmountBeforeUpdate")) != opts.get("unmount_before_update", False):
                    res.failures.append(f"{where} has unmountBeforeUpdate={src.get('unmountBeforeUpdate')!r}")
                if kind == "url":
                    if (src.get("source"), src.get("sourceType")) != (f"https://host.test/{name}.js", "URL"):
                        res.failures.append(f"{where} comes from {src}")
                else:
                    if src.get("sourceType") != "NAME":
                        res.failures.append(f"{where} comes from {src}")
                    f = Path(d, "web", src.get("source") or "?")
                    if name and src.get("source") not in (name + ".js", name + ".mjs", name):
                        res.failures.append(f"{where} is served as {src.get('source')}")
                    if not f.exists() or f.read_text() != CONTENT[c]:
                        res.failures.append(f"{where}: the published file {src.get('source')} holds {f.read_text() if f.exists() else None!r}")
                    past.append((where, name, f, CONTENT[c]))
                try:
                    el = make("child")
                    if not opts.get("allow_children", True):
                        res.failures.append(f"{where} accepts children")
                    elif el.get("children") != ["child"]:
                        res.failures.append(f"{where} loses its children")
                except TypeError:
                    if opts.get("allow_children", True):
                        res.failures.append(f"{where} does not accept children")
        for before, given, f, text in past:
            # only an import of the same given name may replace what an earlier one published
            if not given and (not f.exists() or f.read_text() != text):
                res.failures.append(f"{where} replaced the module published by {before} without a name: {f.read_text() if f.exists() else None!r}")
        if res.failures:
            break
    res.states = [hash(repr(history[:k + 1])) for k in range(len(history))]
    res.outcome = hash(repr(history[-1]))
    return res


def npm(q):
    for pkg in ("react-bootstrap", "@mui/material", "@s/p/sub"):
        for v in ("latest", "2", "1.2.3"):
            for cdn in (None, "https://esm.sh/v135", "https://cdn.test", "https://esm.sh"):
                for bundle in (True, False):
                    for again in (False, True):
                        for opts in ({}, {"unmount_before_update": True}, {"fallback": "wait"}, {"allow_children": False}, {"resolve_imports": True, "resolve_imports_depth": 1},
                                     {"resolve_imports": True, "resolve_imports_depth": 2}, {"resolve_imports": True}):
                            yield pkg, v, cdn, bundle, again, opts


def judge_npm(case):
    pkg, v, cdn, bundle, again, opts = case
    fresh()
    res = Result(states=[hash(repr(case))])
    kw = {} if cdn is None else {"cdn": cdn}
    if again:  # an earlier import of the same package with other options
        reactjs.component_from_npm(pkg, "B", version=v, bundle=not bundle, resolve_imports=False, fallback="f", **kw)
    esm = cdn is None or "esm.sh" in cdn
    depth = opts.get("resolve_imports_depth", 5) if opts.get("resolve_imports") else 0
    pages = []
    if depth:
        class Any(dict):
            def __contains__(self, k):
                return True

            def __getitem__(self, k):
                pages.append(k)
                return f"export const B{len(pages) - 1} = 1; export * from './next{len(pages)}.js'".replace("B0", "B")
        web.pages = Any()
    try:
        make = reactjs.component_from_npm(pkg, "B", version=v, bundle=bundle, **opts, **kw)
    finally:
        web.pages = {}
    el = make()
    src = el["importSource"]
    url = src["source"]
    if not url.startswith(f"{cdn or 'https://esm.sh/v135'}/{pkg}@{v}") or src["sourceType"] != "URL":
        res.failures.append(f"{case}: {src}")
    if (src["fallback"], bool(src["unmountBeforeUpdate"])) != (opts.get("fallback"), opts.get("unmount_before_update", False)):
        res.failures.append(f"{case}: {src}")
    query = url.partition("?")[2].split("&")
    if ("bundle" in query) != (bundle and esm) or any(x.startswith("external=") for x in query) != esm:
        res.failures.append(f"{case}: {url}")
    if len(pages) != depth or (pages and pages[0] != url):
        res.failures.append(f"{case}: {pages} were read")
    try:
        el = make("child")
        if not opts.get("allow_children", True):
            res.failures.append(f"{case}: accepts children")
    except TypeError:
        if opts.get("allow_children", True):
            res.failures.append(f"{case}: does not accept children")
    return res


def maps(q):
    for debug in (False, True):
        for prefix in ("/reactpy/", "/a/b/"):
            yield debug, prefix, {"use_local": True}
            for fw in (None, "preact", "react", "vue"):
                for v in (None, "18", "10.2.4", "latest"):
                    yield debug, prefix, {"framework": fw, "version": v}


def judge_map(case):
    """The import map binds react to one framework of the requested version."""
    debug, prefix, kw = case
    res = Result(states=[hash(repr(case))])
    was = config.REACTPY_DEBUG.current, config.REACTPY_PATH_PREFIX.current
    config.REACTPY_DEBUG.current, config.REACTPY_PATH_PREFIX.current = debug, prefix
    try:
        el = reactjs.import_reactjs(**kw)
    except ValueError as e:
        if kw["framework"] != "vue":
            res.failures.append(f"{case}: {e!r}")
        return res
    finally:
        config.REACTPY_DEBUG.current, config.REACTPY_PATH_PREFIX.current = was
    if kw.get("framework") == "vue":
        res.failures.append(f"{case}: accepted")
        return res
    if el["tagName"] != "script" or el["attributes"].get("type") != "importmap" or len(el["children"]) != 1:
        res.failures.append(f"{case}: {el}")
        return res
    got = json.loads(el["children"][0])["imports"]
    names = ("react", "react-dom", "react-dom/client", "react/jsx-runtime")
    if "use_local" in kw:
        want = [f"{prefix}static/{f}.js" for f in ("preact", "preact-dom", "preact-dom", "preact-jsx-runtime")]
    else:
        react = kw["framework"] == "react"
        v = kw["version"] or ("19" if react else "10")
        base = "https://esm.sh/v135/"
        want = [base + w for w in ((f"react@{v}", f"react-dom@{v}", f"react-dom@{v}/client", f"react@{v}/jsx-runtime") if react else
                                   (f"preact@{v}/compat", f"preact@{v}/compat", f"preact@{v}/compat/client", f"preact@{v}/compat/jsx-runtime"))]
        want = [w + ("?dev" if debug else "") for w in want]
    if got != dict(zip(names, want)):
        res.failures.append(f"{case}: {got} instead of {dict(zip(names, want))}")
    res.outcome = hash(repr(got))
    return res


def main():
    chk = Check("C26")
    q = tier() == "quick"
    logging.disable(logging.CRITICAL)
    base = os.environ["VERIF_SCRATCH"] = tempfile.mkdtemp(prefix="verif-imports-")
    groups = [("exports", lambda: sources(q), judge_source), ("graphs", lambda: graphs(q), judge_graph),
              ("histories", lambda: histories(q), judge_history), ("npm", lambda: npm(q), judge_npm), ("import maps", lambda: maps(q), judge_map)]
    try:
        total, per = space.run(groups, time.time() + float(os.environ.get("VERIF_BUDGET", 400 if q else 800)))
        space.finish(chk, groups, total, per, rule="one evaluation of the real resolver or import functions per source, module graph and history of imports",
                     bound="sources of up to 3 statements over 37 forms and 12 default exports, 3 separators; all re-export graphs over 3 modules in 3 directory layouts to depth 3 (5 thorough); histories of up to 3 imports, also by the deprecated functions; packages, versions, networks and options; import maps",
                     assumptions=["exports inside comments or strings are not covered", "re-exported names never collide"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    chk.done()


if __name__ == "__main__":
    main()
