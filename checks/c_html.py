"""C22: HTML conversion.

The space of HTML documents and of element trees is enumerated (to a bound); the oracle is a small printer of
HTML of our own, the parser of the standard library and a description of what the browser client displays.
"""
from __future__ import annotations

import asyncio
import itertools
import sys
import time
import os
from html import escape
from html.parser import HTMLParser
from urllib.parse import unquote

from mc import space
from mc.report import Check, tier
from mc.space import Result, words

from reactpy import component, html as h
from reactpy.core.layout import Layout
from reactpy.utils import reactpy_to_string, string_to_reactpy

VOID = {"br", "input", "img", "hr", "meta", "link", "wbr", "area", "base", "col", "embed", "source", "track"}
OPTIONAL_END = {"li", "p", "option", "dt", "dd", "td", "th", "tr"}
RAW = {"script", "style"}

# A tree is a text or a tuple (tag, ((html name, value or None), ...), (children, ...))


def to_html(t):
    if isinstance(t, str):
        return escape(t, quote=False)
    tag, attrs, children = t
    a = "".join(f" {k}" if v is None else f' {k}="{escape(v)}"' for k, v in attrs)
    if tag in VOID:
        return f"<{tag}{a}>"
    inner = "".join(children) if tag in RAW else "".join(map(to_html, children))
    return f"<{tag}{a}>{inner}</{tag}>"


class Dom(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack = [["", {}, []]]
        self.bad = []

    def handle_starttag(self, tag, attrs):
        if self.stack[-1][0] == tag and tag in OPTIONAL_END:
            self.stack.pop()
        node = [tag, dict(attrs), []]
        if len(node[1]) != len(attrs):
            self.bad.append(f"<{tag}> repeats an attribute")
        self.stack[-1][2].append(node)
        if tag not in VOID:
            self.stack.append(node)

    def handle_startendtag(self, tag, attrs):
        self.handle_starttag(tag, attrs)

    def handle_endtag(self, tag):
        while self.stack[-1][0] != tag and self.stack[-1][0] in OPTIONAL_END and not self.stack[-1][2]:
            self.stack.pop()
        if tag in VOID or self.stack[-1][0] != tag:
            self.bad.append(f"</{tag}> does not close anything")
        else:
            self.stack.pop()

    def handle_data(self, data):
        kids = self.stack[-1][2]
        if kids and isinstance(kids[-1], str):
            kids[-1] += data
        else:
            kids.append(data)

    def handle_comment(self, data):
        self.bad.append("a comment appeared")

    def handle_decl(self, data):
        self.bad.append("a declaration appeared")

    unknown_decl = handle_pi = handle_decl


def read_html(text):
    p = Dom()
    p.feed(text)
    p.close()
    while p.stack[-1][0] in OPTIONAL_END and not p.stack[-1][2]:
        p.stack.pop()
    if len(p.stack) != 1:
        p.bad.append(f"<{p.stack[-1][0]}> is not closed")
    return p.stack[0][2], p.bad


# ---------------------------------------------------------------- what the browser client displays for a model

HTML_NAME = {"className": "class", "htmlFor": "for", "defaultChecked": "checked", "acceptCharset": "accept-charset",
             "httpEquiv": "http-equiv"}
ENUMERATED = {"contentEditable", "draggable", "spellCheck"}


def css_name(k):
    if k.startswith("--"):
        return k
    return "".join("-" + c.lower() if c.isupper() else c for c in k)


def css(v):
    if isinstance(v, dict):
        return ";".join(f"{css_name(k)}:{x}" for k, x in v.items() if x is not None)
    return v


def displayed(model):
    """The list of DOM nodes: texts and [tag, attributes, children]."""
    if not isinstance(model, dict):
        return [str(model)]
    tag = model["tagName"]
    kids = []
    for c in model.get("children", []):
        for x in displayed(c):
            if isinstance(x, str) and kids and isinstance(kids[-1], str):
                kids[-1] += x
            elif x != "":
                kids.append(x)
    if not tag:
        return kids
    attrs = {}
    source = {**model.get("attributes", {}), **model.get("inlineJavaScript", {})}
    source.pop("key", None)
    value = None
    if tag in ("input", "textarea", "select"):
        default = source.pop("defaultValue", None)
        value = source.pop("value", None)
        value = default if value is None else value
    for k, v in source.items():
        if v is None or (v is False and not k.startswith(("data-", "aria-")) and k not in ENUMERATED):
            continue
        if k == "style":
            v = css(v)
        if isinstance(v, bool):
            v = str(v).lower()
        attrs[(HTML_NAME.get(k) or k).lower() if not k.startswith(("data-", "aria-")) else k.lower()] = str(v)
    if value is not None:
        if tag == "input":
            attrs["value"] = str(value)
        elif tag == "textarea":
            kids = [str(value)] if str(value) else []
        else:
            chosen = [str(x) for x in value] if isinstance(value, (list, tuple)) else [str(value)]

            def mark(node):
                for k in node:
                    if isinstance(k, str):
                        continue
                    if k[0] == "option":
                        if k[1].get("value", text_of(k)) in chosen:
                            k[1].setdefault("selected", "")
                    else:
                        mark(k[2])
            mark(kids)
    return [[tag.lower(), attrs, kids]]


def text_of(node):
    return node if isinstance(node, str) else "".join(map(text_of, node[2]))


def without_keys(nodes):
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        else:
            out.append([n[0], {k: True if k in BOOL_HTML else unquote(v) if k == "href" else v
                               for k, v in n[1].items() if k != "key"}, without_keys(n[2])])
    return out


LOOP = None


def live(comp):
    global LOOP
    if LOOP is None:
        LOOP = asyncio.new_event_loop()

    async def go():
        async with Layout(comp) as layout:
            return (await layout.render())["model"]
    return LOOP.run_until_complete(go())


def snapshot(v):
    if isinstance(v, dict):
        return {k: snapshot(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [snapshot(x) for x in v]
    return v if isinstance(v, (str, int, float, type(None))) else id(v)


def judge_print(case):
    """Static HTML against the display of the live layout."""
    build = globals()["build_" + case[1]]
    tree = build(*case[2])
    before = snapshot(tree)
    failures = []
    try:
        text = reactpy_to_string(tree)
    except Exception as e:
        return Result([f"printing raised {e!r}"], [hash(case)], 1, "raised")
    if before != snapshot(tree):
        failures.append("the tree was changed by printing it")
    nodes, bad = read_html(text)
    failures += bad

    @component
    def Root():
        return build(*case[2])
    model = live(Root())
    want = displayed(model)
    got, want = without_keys(nodes), without_keys(want)
    if got != want:
        failures.append(f"static HTML {text!r} shows {got}, the live layout shows {want}")
    return Result(failures, [hash(text)], 1, hash(text))


# ---------------------------------------------------------------- the expected result of parsing

def camel(k):
    if k.startswith("--"):
        return k
    first, *rest = k.split("-")
    return first + "".join(p[:1].upper() + p[1:].lower() for p in rest)


REACT_NAME = {"class": "className", "for": "htmlFor", "checked": "defaultChecked", "tabindex": "tabIndex",
              "readonly": "readOnly", "onclick": "onClick", "onkeydown": "onKeyDown", "maxlength": "maxLength",
              "autocomplete": "autoComplete", "contenteditable": "contentEditable", "colspan": "colspan",
              "http-equiv": "httpEquiv", "accept-charset": "acceptCharset", "onchange": "onChange",
              "minlength": "minLength", "autofocus": "autoFocus", "crossorigin": "crossOrigin",
              "spellcheck": "spellCheck", "srcset": "srcset", "hreflang": "hrefLang", "enctype": "enctype"}
BOOL_HTML = {"checked", "disabled", "readonly", "multiple", "selected", "hidden", "required", "open"}
BOOL_REACT = {"defaultChecked", "disabled", "readOnly", "multiple", "selected", "hidden", "required", "open"}
BOOLEAN = {"checked", "disabled", "readonly", "multiple", "selected"}  # the HTML parser of libxml2 expands these


def expected(t, styles=None):
    if isinstance(t, str):
        return t
    tag, attrs, children = t
    out = {"tagName": tag}
    a, js = {}, {}
    for k, v in attrs:
        if k in BOOL_HTML:
            v = k if v is None and k in BOOLEAN else v or True
        elif v is None:
            v = ""
        k2 = REACT_NAME.get(k, k)
        if k.startswith("on"):
            js[k2] = v
        elif k == "style":
            a[k2] = {camel(x): y for x, y in styles}
        else:
            a[k2] = v
    kids = [expected(c, styles) for c in children if c != ""]
    if tag == "textarea" and kids:
        a["defaultValue"] = "".join(kids)
        kids = []
    if tag == "input" and "value" in a:
        a["defaultValue"] = a.pop("value")
    if tag == "select":
        chosen = []

        def options(nodes):
            for n in nodes:
                if isinstance(n, str):
                    continue
                if n["tagName"] == "option":
                    oa = n.setdefault("attributes", {})
                    oa.setdefault("value", text(n))
                    if "selected" in oa:
                        del oa["selected"]
                        chosen.append(oa["value"])
                else:
                    options(n.get("children", []))

        def text(n):
            return n if isinstance(n, str) else "".join(map(text, n.get("children", [])))
        options(kids)
        if "multiple" in a and kids:
            a["multiple"] = True
            if chosen:
                a["defaultValue"] = chosen
        elif chosen:
            a["defaultValue"] = chosen[-1]
    key = a.get("key", a.get("id"))
    if key is None and tag in ("input", "select", "textarea"):
        key = a.get("name")
    if key is None and tag == "script":
        key = kids[0] if kids else a.get("src")
    if key:
        a["key"] = key
    if a:
        out["attributes"] = a
    if js:
        out["inlineJavaScript"] = js
    if kids:
        out["children"] = kids
    return out


def canonical(v):
    """Drop what does not matter: empty maps, event handlers of intercepted links, key order."""
    if not isinstance(v, dict):
        return v
    v = dict(v)
    if v["tagName"] == "option" and v.get("attributes", {}).get("value") == option_text(v):  # the same as none
        v["attributes"] = {k: x for k, x in v["attributes"].items() if k != "value"}
    if "attributes" in v:  # every value that JavaScript takes for true switches a boolean attribute on
        v["attributes"] = {k: True if k in BOOL_REACT and x else x for k, x in v["attributes"].items()}
    out = {k: x for k, x in v.items() if k != "eventHandlers" and (x or k == "tagName")}
    if "children" in out:
        out["children"] = [canonical(c) for c in out["children"]]
    if "inlineJavaScript" in out:
        out["inlineJavaScript"] = {k: str(x) for k, x in out["inlineJavaScript"].items()}
    return out


def option_text(n):
    return "".join(map(option_text, n.get("children", []))) if isinstance(n, dict) else n


def judge_parse(case):
    tree, source, styles, intercept = case
    source = source or to_html(tree)
    failures = []
    try:
        got = string_to_reactpy(source, intercept_links=intercept)
    except Exception as e:
        return Result([f"parsing {source!r} raised {e!r}"], [hash(source)], 1, "raised")
    want = canonical(expected(tree, styles))
    if canonical(got) != want:
        failures.append(f"{source!r} parsed to {canonical(got)}, it denotes {want}")

    def links(v):
        if isinstance(v, dict):
            handlers = v.get("eventHandlers", {})
            if v["tagName"] == "a" and intercept:
                if set(handlers) != {"onClick"} or not handlers["onClick"].prevent_default:
                    failures.append(f"{source!r}: the link is not intercepted")
            elif handlers:
                failures.append(f"{source!r}: unexpected event handlers {handlers} at {v['tagName']}")
            for c in v.get("children", []):
                links(c)
    links(got)
    # print it and parse that again
    try:
        again = reactpy_to_string(got)
        back = string_to_reactpy(again, intercept_links=intercept)
        if canonical(back) != canonical(got):
            failures.append(f"{source!r} parsed to {canonical(got)}, printed as {again!r}, parsed to {canonical(back)}")
        n1, b1 = read_html(source)
        n2, b2 = read_html(again)
        failures += b2
        if not b1 and undecorated(n1) != undecorated(n2):
            failures.append(f"{source!r} was printed as {again!r}")
    except Exception as e:
        failures.append(f"{source!r}: printing the parsed tree raised {e!r}")
    return Result(failures, [hash(source)], 1, hash(source))


def undecorated(nodes):
    """Elements and texts with the attributes that conversion adds or respells left out."""
    out = []
    for n in nodes:
        if isinstance(n, str):
            out.append(n)
        else:
            attrs = {k: v for k, v in n[1].items() if k not in ("key", "style", "value", *BOOL_HTML, *BOOLEAN) and v is not None}
            out.append([n[0], {k: v for k, v in attrs.items() if v != ""}, undecorated(n[2])])
    return out


# ---------------------------------------------------------------- spaces

BLOCKS, PHRASES = ("div", "section"), ("b", "span")


def forests(n, phrasing, last_text=False):
    """All lists of trees with n nodes; no two texts in a row, blocks only within blocks."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for tree in trees(k, phrasing):
            if isinstance(tree, str) and last_text:
                continue
            for rest in forests(n - k, phrasing, isinstance(tree, str)):
                yield (tree, *rest)


def trees(k, phrasing):
    if k == 1:
        yield "t & <i>u</i>"
        yield ("br", (), ())
    for tag in (PHRASES if phrasing else BLOCKS + PHRASES):
        for kids in forests(k - 1, phrasing or tag in PHRASES):
            yield (tag, (), kids)


def shapes(n):
    for k in range(1, n):
        for kids in forests(k, False):
            yield ("div", (), kids), None, None, True
    for kids in forests(2, False):
        for extra in forests(1, False):
            if kids and not isinstance(extra[0], str):
                yield ("section", (), (*kids, ("div", (), extra))), None, None, False


ATTRS = [("class", "a b"), ("for", "x"), ("id", "i"), ("name", "n"), ("key", "k&1"), ("title", 'q"<\'>&amp;'), ("hidden", None),
         ("data-x", "1"), ("aria-label", "l"), ("tabindex", "3"), ("onclick", "f('<a>' && 1)"), ("onkeydown", "g()"),
         ("href", "/p?a=1&b=2"), ("readonly", None), ("disabled", None), ("disabled", ""), ("required", None), ("open", ""), ("checked", None), ("value", "v<1>"),
         ("type", "text"), ("maxlength", "5"), ("contenteditable", "false"), ("autocomplete", "off"),
         ("lang", "ü🎉"), ("colspan", "2"), ("title", ""), ("value", "")]
TAGS = ["div", "input", "a", "button", "label", "p", "textarea", "br", "img", "form", "td", "li", "section", "h1"]


def attributes(n):
    for tag in TAGS:
        for r in range(0, n + 1):
            for c in itertools.combinations(ATTRS, r):
                if len({k for k, _ in c}) == len(c):
                    if any(k == "value" for k, _ in c) and tag == "textarea":
                        continue
                    kids = () if tag in VOID else ("text",)
                    tree = (tag, tuple(c), kids)
                    yield (tree if tag not in ("td", "li") else tree), None, None, True


FLOW = """a abbr acronym address b bdo big blockquote button center cite code dd del dfn div dl dt em fieldset form h1 h2 h3 h4 h5 h6 i
ins kbd label legend li object ol p pre q s samp small span strike strong sub sup td th tr tt u ul var""".split()


def tags():
    for t in FLOW:
        for u in FLOW:
            yield (t, (), ()), None, None, True
            yield (t, (("class", "c"),), ("x",)), None, None, False
            if u != t and (u in INLINE and t not in ("a", "button", "label", "ul", "ol", "dl", "tr") or
                           u in ("div", "blockquote") and t in ("div", "center", "li", "td", "dd", "object", "fieldset")):
                yield (t, (), ("x", (u, (), ("y",)), "z")), None, None, True


INLINE = "a abbr acronym b bdo big cite code dfn em i kbd label q s samp small span strike strong sub sup tt u var".split()
OPTIONS = [("option", a, k) for a in ((), (("selected", None),), (("value", "v"),), (("selected", None), ("value", "v")),
                                       (("value", ""),), (("disabled", None),))
           for k in ((), ("a",), ("v & w",))]
OPTIONS += [("option", a, k) for a in ((), (("selected", None),)) for k in (("a", ("b", (), ("c",))), (("i", (), ("c", ("b", (), ("d",)))), "e"))]


def selects(n):
    for multiple in ((), (("multiple", None),), (("name", "s"),)):
        for w in words(OPTIONS, 0, n):
            if len({dict(a).get("value", "".join(map(text_of, k))) for _, a, k in w}) != len(w):
                continue  # options with the same value cannot be told apart by a model
            yield ("div", (), (("select", multiple, w),)), None, None, True
            if w:
                yield ("select", multiple, (("optgroup", (("label", "g"),), w[:1]), *w[1:])), None, None, True


DECLARATIONS = [("color", "red"), ("background-color", "blue"), ("background", "url(data:image/png;base64,AA==)"),
                ("content", '";"'), ("content", "'a:b;c'"), ("--my-Var", "1px"), ("-webkit-box-flex", "2"),
                ("margin", "0 auto"), ("background-image", 'url("x;y:z")'), ("width", "calc((1px + 2px) * 3)"), ("quotes", '"\\"" ";"')]


def styles(n):
    for w in words(DECLARATIONS, 1, n):
        if len({k for k, _ in w}) != len(w):
            continue
        for glue, colon, end in ((";", ":", ""), ("; ", ": ", ";"), (" ;\n ", " : ", " ; ;")):
            text = glue.join(k + colon + v for k, v in w) + end
            yield ("p", (("style", text),), ("x",)), None, w, True


CHARS = ["<", ">", "&", '"', "'", "a", " ", "=", "/", "!", "-", ";", "&amp;", "]]>", "é", "🎉", "\n", "\\", "{", "\xa0", "&#60;", "</p>"]


def texts(n):
    for w in words(CHARS, 1, n):
        s = "".join(w)
        if s.strip():
            yield ("div", (), ("x" + s,)), None, None, True
            yield ("p", (), (("b", (), (s + "y",)), "z" + s)), None, None, True
        yield ("p", (("title", s), ("data-y", s)), ("x",)), None, None, True
        yield ("textarea", (), ("x" + s,)), None, None, True
        if "<" not in s:
            yield ("div", (), (("script", (), ("x" + s,)),)), None, None, True


# ---- printing

@component
def Text(value):
    return value


@component
def Wrap(child):
    return h.span(child)


@component
def Pass(child):
    return child


@component
def Frag(*children):
    return h.fragment(*children)


LEAVES = {
    "text": lambda: "t<&>", "none": lambda: None, "int": lambda: 5, "zero": lambda: 0, "true": lambda: True, "float": lambda: 1.5,
    "b": lambda: h.b("x"), "br": lambda: h.br(), "frag": lambda: h.fragment("f", h.i("g")), "list": lambda: ["l", h.i("m"), None],
    "component": lambda: Wrap("c"), "component none": lambda: Text(None), "component frag": lambda: Frag("p", h.b("q"), None),
    "component dict": lambda: Pass(h.u("r")), "component component": lambda: Pass(Pass(Wrap("s"))), "empty": lambda: h.fragment(),
    "empty text": lambda: "",
}
HOLDERS = {"div": lambda *c: h.div(*c), "fragment": lambda *c: h.div(h.fragment(*c)), "nested": lambda *c: h.div("x", h.p(*c), "y"),
           "component": lambda *c: h.div(Wrap(h.em(*c))), "keyed": lambda *c: h.ul({"key": "u"}, h.li({"key": "a"}, *c))}


def build_children(holder, *leaves):
    return HOLDERS[holder](*[LEAVES[x]() for x in leaves])


def printed_children(n):
    for holder in HOLDERS:
        for w in words(list(LEAVES), 0, n):
            yield "children", "children", (holder, *w)


VALUES = [None, True, False, 0, 5, 1.5, "", "x", 'a"b<c>&d', "ü🎉"]
NAMES = ["className", "htmlFor", "id", "data-Foo", "aria-hidden", "hidden", "disabled", "tabIndex", "title", "defaultChecked",
         "draggable", "contentEditable", "acceptCharset", "httpEquiv", "viewBox", "autoComplete", "key", "href", "readOnly"]
PTAGS = ["div", "input", "form", "label", "meta", "button"]


def build_element(tag, attrs, *children):
    return h.div(getattr(h, tag)(dict(attrs), *children))


def printed_attributes(n):
    for tag in PTAGS:
        for name in NAMES:
            for v in VALUES:
                if v not in ("", 0) or name not in ("disabled", "hidden", "defaultChecked", "readOnly"):
                    yield "attribute", "element", (tag, ((name, v),))
    for tag in ("div", "input"):
        for r in range(2, n + 1):
            for c in itertools.combinations(NAMES, r):
                for vs in itertools.product((True, False, "x", None), repeat=r):
                    yield "attributes", "element", (tag, tuple(zip(c, vs)))
    for name in ("onClick", "onKeyDown", "onclick"):
        for v in ("f()", 'g("<a>" && b)', ""):
            yield "inline script", "element", ("button", ((name, v),), "x")
    values = [v for v in VALUES if not isinstance(v, bool)] + ["4261"]
    for tag in ("input", "textarea", "select"):
        for v in values:
            for d in values:
                if tag == "textarea":
                    yield "control", "element", (tag, (("value", v), ("defaultValue", d)), "child")
                if tag == "select":
                    for v2 in ((v, d), [v, d]):
                        yield "select", "select", (v2 if isinstance(v2, tuple) else tuple(v2), isinstance(v2, list))
                else:
                    yield "control", "element", (tag, (("value", v), ("defaultValue", d)))


def build_select(vd, as_list):
    v, d = vd
    attrs = {"multiple": True, "defaultValue": [x for x in (v, d) if x is not None]} if as_list else {"value": v, "defaultValue": d}
    return h.div(h.select(attrs, h.option("x"), h.option({"value": "x"}, "y"), h.option({"value": 5}, "z"), h.optgroup(h.option("5")),
                          h.option("4", h.b("2", h.i("6")), "1")))


PSTYLES = [("color", "red"), ("backgroundColor", "blue"), ("WebkitTransition", "all 1s"), ("--myVar", "1"), ("margin", 0),
           ("background", "url(a;b)"), ("content", '"<>"'), ("width", None), ("MozAppearance", "none"), ("fontSize", "1em")]


def build_style(pairs):
    return h.div({"style": dict(pairs)}, "x")


def printed_styles(n):
    for r in range(0, n + 1):
        for c in itertools.permutations(PSTYLES, r):
            yield "style", "style", (c,)


def build_text(kind, s):
    if kind == "text":
        return h.div(s, h.b(s), s)
    if kind == "attribute":
        return h.div({"title": s, "data-x": s, "style": {"content": s}}, "x")
    if kind == "control":
        return h.div(h.textarea({"defaultValue": "x" + s}), h.input({"value": s}))
    return h.div(h.script("x" + s), h.style("x" + s))


def printed_texts(n):
    for w in words(CHARS, 1, n):
        s = "".join(w)
        for kind in ("text", "attribute", "control"):
            yield "text", "text", (kind, s)
        if "<" not in s:
            yield "raw text", "text", ("raw", s)


def main():
    chk = Check(sys.argv[1])
    q = tier() == "quick"
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800))
    import warnings
    warnings.simplefilter("ignore")
    groups = [
        ("parse shapes", lambda: shapes(6 if q else 7), judge_parse),
        ("parse tags", tags, judge_parse),
        ("parse attributes", lambda: attributes(2 if q else 3), judge_parse),
        ("parse selects", lambda: selects(3 if q else 4), judge_parse),
        ("parse styles", lambda: styles(4 if q else 5), judge_parse),
        ("parse texts", lambda: texts(3 if q else 4), judge_parse),
        ("print children", lambda: printed_children(3 if q else 4), judge_print),
        ("print attributes", lambda: printed_attributes(2 if q else 3), judge_print),
        ("print styles", lambda: printed_styles(3 if q else 5), judge_print),
        ("print texts", lambda: printed_texts(3 if q else 4), judge_print),
    ]
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per,
                 "case = one document or element tree; state = its text, transition = one conversion in both directions",
                 "all documents of at most 5 (thorough 6) nodes below the root over 6 node kinds; 55 tags nested in each other; 14 tags with at most 2 (3) of "
                 "28 attributes; at most 3 (4) of 18 options; at most 4 (5) of 11 style declarations in 3 notations; texts of at most 3 (4) of 22 "
                 "pieces; elements with at most 3 (4) children of 17 kinds in 5 surroundings, every attribute with each of 10 values",
                 ["white space at the start of an element is not preserved by the parser of libxml2 and is not judged",
                  "text containing '<' within script and style elements cannot be expressed in HTML",
                  "numeric style values are printed without a unit"])
    chk.done()


if __name__ == "__main__":
    main()
