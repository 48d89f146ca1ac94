"""C30: the command-line source rewriters.

Programs are put together from call forms, layouts (comments, line breaks) and statement contexts; every combination of
the stated families is rewritten by the real code and compared with an independent transformation of its syntax tree,
with the text outside of the changed calls and with the comments of the original.
"""
from __future__ import annotations

import ast
import contextlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import time
import tokenize
from collections import Counter
from pathlib import Path

from mc import space
from mc.report import Check, tier
from mc.space import Result

from reactpy._console import rewrite_keys, rewrite_props

import click
from click.testing import CliRunner

TAGS = {"p", "b", "div", "time", "html", "vdom"}  # names in the programs below which are elements when they stand alone


# ---------------------------------------------------------------- what the property says

def element(call):
    f = call.func
    if isinstance(f, ast.Attribute):
        v = f.value
        if isinstance(v, ast.Name) and v.id == "html" or isinstance(v, ast.Attribute) and v.attr == "html":
            return f.attr
    if isinstance(f, ast.Name) and f.id in TAGS:
        return f.id
    return None


def is_dict_call(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "dict"


def place(call):
    """Index of the attributes of an element, and whether they must be added; None: unknown."""
    name = element(call)
    if name is None:
        return None
    i = 0
    if name == "vdom":
        if not call.args or isinstance(call.args[0], ast.Starred):
            return None
        i = 1
    if len(call.args) <= i:
        return i, True
    a = call.args[i]
    if isinstance(a, (ast.Constant, ast.JoinedStr)):
        return i, True
    if isinstance(a, ast.Dict) or is_dict_call(a):
        return i, False
    return None


def camel(name):
    parts = name.split("_")
    if len(parts) < 2 or not all(x and x.isascii() and x.isalnum() for x in parts) or parts[0][0].isdigit():
        return name
    return parts[0] + "".join(x[0].upper() + x[1:] for x in parts[1:])


def rename(d, style):
    """Rename the literal names in a dict display or call; returns whether anything changed."""
    changed = False

    def inner(k, v):
        if k == "style" and not style and (isinstance(v, ast.Dict) or is_dict_call(v)):
            return rename(v, True)
        return False
    if isinstance(d, ast.Dict):
        for k, v in zip(d.keys, d.values):
            if isinstance(k, ast.Constant) and isinstance(k.value, str):
                changed |= inner(k.value, v)
                if k.value != camel(k.value):
                    k.value = camel(k.value)
                    changed = True
    else:
        names = {k.arg for k in d.keywords}
        for k in d.keywords:
            if k.arg is None:
                continue
            changed |= inner(k.arg, k.value)
            new = camel(k.arg)
            if new != k.arg and new not in names:
                names.add(new)
                k.arg = new
                changed = True
    return changed


def transform(tree, which):
    """Apply the documented change to `tree`; returns the calls which were changed."""
    changed = []
    for call in [n for n in ast.walk(tree) if isinstance(n, ast.Call)]:
        at = place(call)
        if at is None:
            continue
        i, add = at
        if which == "props":
            if not add and rename(call.args[i], False):
                changed.append(call)
            continue
        key = next((k for k in call.keywords if k.arg == "key"), None)
        if key is None:
            continue
        if add:
            call.args.insert(i, ast.Dict(keys=[ast.Constant("key")], values=[key.value]))
        elif isinstance(call.args[i], ast.Dict):
            call.args[i].keys.append(ast.Constant("key"))
            call.args[i].values.append(key.value)
        elif any(k.arg == "key" for k in call.args[i].keywords):
            continue
        else:
            call.args[i].keywords.append(key)
        call.keywords.remove(key)
        changed.append(call)
    return changed


def starts_of(source):
    at = [0]
    for m in re.finditer(r"\r\n|\n", source):
        at.append(m.end())
    return at


def positions(source, nodes):
    at = starts_of(source)

    def pos(line, col):
        return at[line - 1] + len(source[at[line - 1]:].encode()[:col].decode("utf-8", "ignore"))
    out = []
    for a, b in sorted(((pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)) for n in nodes),
                       key=lambda r: (r[0], -r[1])):
        if not out or a >= out[-1][1]:
            out.append((a, b))
    return out


def comments(source):
    return [t.string for t in tokenize.generate_tokens(io.StringIO(source).readline) if t.type == tokenize.COMMENT]


def check(source, out, which, said):
    """What is wrong with `out`, the rewritten `source` (None: unchanged)."""
    bad = []
    tree = ast.parse(source)
    before = ast.dump(tree)
    changed = transform(tree, which)
    if out is None or out == source:
        if ast.dump(tree) != before:
            bad.append(f"{which}: not rewritten")
        out = source
    else:
        if not changed:
            return [f"{which}: rewrote a program that needs no change: {out!r}"]
        try:
            new = ast.parse(out)
        except SyntaxError as e:
            return [f"{which}: the result is not a valid program ({e}): {out!r}"]
        if ast.dump(new) != ast.dump(tree):
            bad.append(f"{which}: the result means something else: {out!r}")
        if Counter(comments(out)) != Counter(comments(source)):
            bad.append(f"{which}: comments changed: {out!r}")
        pieces, last = [], 0
        for a, b in positions(source, changed):
            pieces.append(source[last:a])
            last = b
        pieces.append(source[last:])
        plain = re.sub(r"(?m)^[ \t\f]*# c\d+\r?\n", "", out)
        if not re.fullmatch(".*?".join(re.escape(re.sub(r"(?m)^[ \t\f]*# c\d+\r?\n", "", x)) for x in pieces), plain, re.S):
            bad.append(f"{which}: text outside of the changed calls is not kept: {out!r}")
        if "\r\n" in source and re.search(r"(?<!\r)\n", out) and not re.search(r"(?<!\r)\n", source):
            bad.append(f"{which}: line ends changed: {out!r}")
    if which == "keys":
        left = [n.lineno for n in ast.walk(ast.parse(out)) if isinstance(n, ast.Call) and element(n) is not None
                and any(k.arg == "key" for k in n.keywords)]
        for n in left:
            if not any(re.search(rf"f\.py:{n}(?!\d)", x) for x in said):
                bad.append(f"keys: nothing was said about what could not be rewritten in line {n}: {said!r} {out!r}")
    return bad


RUN = {"keys": rewrite_keys.generate_rewrite, "props": rewrite_props.generate_rewrite}
PATH = Path("f.py")


@contextlib.contextmanager
def listening():
    said = []
    old = click.echo
    click.echo = lambda message=None, *a, **k: said.append(str(message))
    try:
        yield said
    finally:
        click.echo = old


def judge_source(source):
    bad, n = [], 0
    out = None
    results = []
    for which, run in RUN.items():
        with listening() as said:
            out = run(PATH, source)
            n += 1
        bad += check(source, out, which, said)
        results.append(out)
        if out is not None and not bad:
            with listening():
                again = run(PATH, out)
                n += 1
            if again is not None and again != out:
                bad.append(f"{which}: a second run changes the program again: {out!r} -> {again!r}")
    r = Result([f"{b} | source {source!r}" for b in bad[:2]], [hash(source)], n, hash(tuple(results)))
    r.runs = n
    return r


# ---------------------------------------------------------------- the programs

PLAIN, LINES, COMMENTS, OWN, TIGHT, SLASH = range(6)
_counter = itertools.count()


def call(fn, parts, layout, counter):
    if layout == PLAIN:
        return f"{fn}({', '.join(parts)})"
    if layout == TIGHT:
        return f"{fn} ( {' ,'.join(parts)}{' , ' if parts else ''})"
    if layout == SLASH:
        return f"{fn}({', ' + chr(92) + chr(10)}".replace(", " + chr(92), chr(92)) + (", " + chr(92) + "\n").join(parts) + ")"
    if layout == LINES:
        return fn + "(\n" + "".join(f"            {p},\n" for p in parts) + ")"
    if layout == COMMENTS:
        return fn + f"(  # c{next(counter)}\n" + "".join(f"   {p},  # c{next(counter)}\n" for p in parts) + "        )"
    return fn + "(" + ",\n".join(f"\n  # c{next(counter)}\n {p}" for p in parts) + f"\n# c{next(counter)}\n)"


NESTED = [
    "html.b(key=1)", "html.b({'c_d': 1})", "foo()", "time()", "max(xs, key=f)", "foo({'a_b': 1}, key=2)",
    "(lambda a_b: html.b(key=a_b))", "[html.b(key=i_j) for i_j in xs]", "f\"{html.b(key=3)} {html.b({'a_b': x})!r}\"",
    "html.b({'q_r': html.b({'s_t': 1})})", "p(dict(a_b=1), key=foo())", "x if y else html.b(key='ü')",
    "'''t\n  # no comment\n\tt'''", "f'''{x}\n  {html.b(key=1)}'''", "html.b(html.b(key=1), key=2)",
    "(await html.b({'a_b': 1}))", "(y := html.b(key=1))", "{'a_b': 1}", "dict(a_b=1)", "html.b(x, key=1)", "-x ** 2", "'\\n\\u00e9'",
    "b'x'", "f'{x:{w}}' 'it\\'s'", "1e999", "not x",
]
ATTRS = [
    None, "{}", "{'a_b': 1}", "{'a_b': 1, 'key': 2}", "{**d_e}", "{**d_e, 'on_click': f}", "dict()", "dict(a_b=1)",
    "dict(key=1)", "dict(d_e, a_b=1)", "dict(**d_e)", "'text'", "f'{x}'", "x", "*x_s", "1", "None",
    "{'style': {'font_size': 1}}", "{'style': dict(font_size=1)}", "{'style': mk(font_size=1), 'a_b_c': 2}",
    "dict(style={'font_size': 1, 'style': {'a_b': 1}})", "{'style': {'--my_var': 1, '-webkit_x': 2}}", "{x_y: 1, 3: 4, None: {'a_b': 1}}",
    "{'data-x_y': 1, 'ns:a_b': 2, '': 3, '_': 4}", "dict(class_=1, _a=2, a__b=3, for_=4)", "dict(a_b=1, aB=2, a_B=3)",
    "{'a_b': 1, 'aB': 2}", "html.b({'e_f': 1})", "{'a_b': html.b({'c_d': 1}, key=3)}", "make_dict(a_b=1)", "mod.dict(a_b=1)",
    "{'on_dblClick': 1, 'x1_2': 2, 'max_iD': 3}", "{'a_b': 'ü', 'ö_b': 2}", "{k_l: v_m for k_l in x}", "{'a_b': x} | y", "{'style': {'a_b': {'c_d': 1}}}",
    "dict(style=dict(a_b=1, aB=2), data_x=1)", "(z := {'a_b': 1})", "('te' 'xt')", "{'class': {'a_b': 1}, 'style': (x, {'a_b': 1})}",
    "{'styles': {'a_b': 1}}", "{'a_b': 1, **{'c_d': 2}}", "dict({'a_b': 1}, **{'c_d': 2})",
]
CHILDREN = [(), ("'c'",), ("x",), ("*x_s",), ("html.b(key=1)",), ("foo({'a_b': 1})", "y")]
KEYWORDS = [(), ("key='k'",), ("key=foo(a_b=1)",), ("key=html.b(key=1)",), ("**kw",), ("key=1", "**k_w"), ("other_kw=1",), ("other_kw=1", "key=2")]
FUNCTIONS = ["html.p", "reactpy.html.p", "vdom", "p", "foo", "x.p", "html.my_tag", "html.svg.g", "html", "x().html.p", "getattr(html, 'p')", "max", "html.p.q", "VDOM"]


def forms(functions, attrs, children, keywords):
    for fn in functions:
        for a in attrs:
            for c in children:
                for k in keywords:
                    parts = ([a] if a is not None else []) + list(c) + list(k)
                    if fn == "vdom":
                        for first in (["'p'"], ["*t_s"], []):
                            yield fn, first + parts
                    else:
                        yield fn, parts


CONTEXTS = [
    "x = «1»  # t0", "«1»; «2»", "if a: «1»", "if «1»:\n    y\nelif «2»:  # t0\n    z\nelse:\n    w",
    "for i in «1»:\n    pass  # t0\nelse:\n    «2»", "while «1»: «2»", "with «1» as a_b, «2» as c:\n\tpass",
    "match «1»:\n    case 1 if «2»:\n        pass  # t0\n    case _: «1»", "try: «1»\nexcept E: «2»\nfinally:\n    pass",
    "try:\n  pass\nexcept* «1» as e:\n  «2»", "@deco(«1»)\ndef f(a=«2»): return a  # t0", "@deco(«1»)\nasync def f():\n    await «2»",
    "@a\n@deco(«1»)  # t0\n@b(«2»)\nclass C: pass", "class C(B, meta=«1»): x = «2»", "def f(): return «1»  # t0",
    "def f(a, /, b=«1», *, c: «2»=1) -> «1»:\n    '''doc\n  # string'''\n    return", "async def f():\n\tasync for i in «1»:\n\t\tyield «2»",
    "async def f():\n  async with «1»: return [i async for i in «2»]", "y = lambda a=«1»: «2»", "y = [«1» for i in «2» if «1»]", "«1» if «2» else «1»",
    "print((y := «1»), *«2», **«1»)", "f(\"ü{«2»}\", f'''ü{«1»!r:>{w}}{«2»}''')", "x = f'''ü\n  {«1»}\n\t{«2»}  # string\n''' + 'ö'", "'üö😀' + «1» + «2»  # t0", "a[«1»:«2»] = b",
    "assert «1», «2»", "raise «1» from «2»", "del «1».x, «2»[0]", "{«1»: «2», 'a_b': 1, **«1»}", "x: «1» = «2»", "x += «1»", "«1».attr(«2»).y",
    "foo(«1»)(«2»)", "x = (\n    «1»  # t0\n    if a\n    else «2»\n)", "x = a + \\\n    «1» + \\\n  «2»  # t0", "'''doc\n«'''\nx = «1»",
    "class A:\n\tdef f(self):\n\t\t'''doc\n\t  x'''\n\t\treturn [«1»,\n\t\t\t«2»]  # t0\n\n\t# t1\n\ty = 1", "x = '''a\n  b''' + «1» + '''\nc''' + «2»",
    "x = [\n  1, # t0\n  «1», «2»,\n  # t1\n]", "if a:\n  if b:\n      «1»\n  # t0\n  else: «2»\n# t1", "x = «1»,«2»", "\x0cx = «1»",
    "a;b;  «1»  ;c ; «2» # t0", "x = (yield «1»)", "x = not(«1»)", "x = [«1»,«2»][0]if y else[«1»]", "@«1»\ndef f(): pass", "type X = «1»", "global a_b\n«1»\\\n  .foo()", "lambda: (yield «2»)",
    "x = f'{f\"{«1»}\"}' f\"{«2»:{«1»}}\"", "x = '''\\\n''' f'''\\\n{«1»}''' ; «2»", "if 1: # t0\n    # t1\n    «1» # t2\n    # t3", "«1»(«2», key=1)", "html.p(«1», key=«2»)", "html.p({'a_b': «1», 'c_d': «2»})", "foo(«1», key=«2»)",
]
BEFORE = "a_b=1 ;c  =  {'a_b' :1}   # ünrelated ( {\nfoo( key = 1 )\n\n\n"
AFTER = "\n\n\nx  =  1 # end\n\tif 0 else 2\n"
AFTER = "\n\n\nx  =  1 # end"

SMALL = [
    ("html.p", ["key='k'"]), ("html.p", ["{'a_b': 'ü', 'style': {'c_d': 1}}", "'child'", "key=1"]), ("html.p", ["dict(a_b=1)", "x"]),
    ("html.p", ["html.b(key=1)", "html.b({'a_b': 1})"]), ("foo", ["html.b({'a_b': 1}, key=1)", "key=2"]), ("html.p", ["x", "key=1"]),
    ("vdom", ["'p'", "{'a_b': '''s\n  # x'''}", "f'''{html.b({'c_d': 1})}\n'''", "key=1"]), ("foo", []), ("html.p", ["{'a_b': 1}", "[html.b({'c_d': i}, html.b(key=1), key=i) for i in z]"]),
]


def build(context, texts):
    out = context
    for i, t in enumerate(texts, 1):
        out = out.replace(f"«{i}»", t)
    return out


class Programs:
    def __init__(self, quick):
        self.quick = quick

    def all_forms(self):
        """Every form of a call in every layout, in a few contexts."""
        contexts = ["«1»", "  # t0\nif a:\n    x = «1»  # t1"]
        for fn, parts in forms(FUNCTIONS, ATTRS, CHILDREN, KEYWORDS):
            for layout in (PLAIN, COMMENTS) if self.quick else range(6):
                if layout and not parts:
                    continue
                for ci in range(len(contexts)):
                    if self.quick and ci != (len(parts) + layout) % 2:
                        continue
                    yield build(contexts[ci], [call(fn, parts, layout, itertools.count())])

    def all_nested(self):
        """Every nested expression as child, attribute value and key, in every layout."""
        for fn, first in (("html.p", []), ("vdom", ["'p'"]), ("foo", [])):
            for n1 in NESTED:
                for n2 in NESTED:
                    for layout in range(6):
                        c = itertools.count()
                        for parts in ([n1, n2, "key=1"], ["{'a_b': " + n1 + "}", n2], ["dict(c_d=" + n1 + ")", "key=" + n2], ["'t'", n1, "key=" + n2]):
                            yield build("x = [«1», 'ä']", [call(fn, first + parts, layout, c)])

    def all_contexts(self):
        """Every context with every pair of forms in every pair of layouts, with each line end."""
        for context in CONTEXTS:
            pairs = itertools.product(SMALL, SMALL) if "«2»" in context else ((f, SMALL[0]) for f in SMALL)
            for f1, f2 in pairs:
                layouts = list(itertools.product(range(6), range(6))) if "«2»" in context else [(i, 0) for i in range(6)]
                if self.quick and "«2»" in context:
                    k = SMALL.index(f1) * 5 + SMALL.index(f2)
                    layouts = [lo for lo in layouts if lo[0] == lo[1] or (lo[0] * 7 + lo[1] + k) % 6 == 0]
                for l1, l2 in layouts:
                    c = itertools.count()
                    text = build(context, [call(*f1, l1, c), call(*f2, l2, c)])
                    for shape in range(3):
                        if self.quick and shape != (l1 + l2 + len(f1[1])) % 3:
                            continue
                        if shape == 0:
                            yield text
                        elif shape == 1:
                            yield BEFORE + text + AFTER
                        else:
                            yield (BEFORE + text + "\n" + text + AFTER + "\n").replace("\n", "\r\n")


def judge(source):
    # the same comment twice in one program
    c = itertools.count()
    source = re.sub(r"# c\d+", lambda m: f"# c{next(c)}", source)
    try:
        ast.parse(source)
        comments(source)
    except (SyntaxError, SystemError):
        # not a valid program, or one on which the interpreter's own tokenizer fails (an f-string over several lines
        # and a later keyword argument within another f-string)
        r = Result([], [], 0, 0)
        r.runs = 0
        r.known = []
        return r
    return judge_source(source)


# ---------------------------------------------------------------- files

FILES = [
    ("utf-8", "", "x = 'ü😀'; y = html.p({'a_b': 'ä'}, key='ö')  # ü\nz  =  1"),
    ("utf-8-sig", "", "html.p({'a_b': 1}, key=1) # ü\n"),
    ("latin-1", "# -*- coding: latin-1 -*-\n", "x = 'é' ; html.p({'a_b': 'è'}, key='é')\n"),
    ("cp1251", "#!/usr/bin/python\n# vim: set fileencoding=cp1251 :\n", "x = 'я' + html.p({'a_b': 'ж'}, key='я') # я\n\n\n"),
    ("utf-8", "# coding: utf-8\n", "foo('ü', key=1)\n"),
    ("utf-8", "", ""),
    ("utf-8", "", "# only a comment"),
    ("utf-8", "", "'''\nhtml.p({'a_b': 1}, key=1)\n'''\n"),
]


def judge_files(case):
    """One run of one command on a directory which holds the given files."""
    which, chosen, ends, direct, name = case
    command = {"keys": rewrite_keys.rewrite_keys, "props": rewrite_props.rewrite_props}[which]
    d = tempfile.mkdtemp(prefix="verif-rw-")
    bad = []
    try:
        content = {}
        for i, (f, end) in enumerate(zip(chosen, ends)):
            enc, head, body = FILES[f]
            sub = os.path.join(d, ["", "pkg/sub"][i % 2])
            os.makedirs(sub, exist_ok=True)
            path = os.path.join(sub, name.format(i))
            text = head + body
            if end == "mixed":
                text = text.replace("\n", "\r\n", 1)
            else:
                text = text.replace("\n", end)
            with open(path, "wb") as fh:
                fh.write(text.encode(enc))
            content[path] = (enc, text)
        for round_ in range(2):
            args = sorted(content) if direct else [d]
            r = CliRunner().invoke(command, args, catch_exceptions=True)
            if r.exit_code != 0:
                bad.append(f"{which}: failed with {r.exception!r}")
                break
            seen = sorted(os.path.join(a, x) for a, _, b in os.walk(d) for x in b)
            if seen != sorted(content):
                bad.append(f"{which}: files appeared or vanished: {seen}")
            for path, (enc, text) in content.items():
                got = open(path, "rb").read()
                if not direct and not path.endswith(".py"):
                    if got != text.encode(enc):
                        bad.append(f"{which}: a file which is no Python program was changed")
                    continue
                try:
                    out = got.decode(enc)
                except UnicodeDecodeError:
                    bad.append(f"{which}: the encoding of the file changed: {got!r}")
                    continue
                if enc == "utf-8-sig" and got[:3] != b"\xef\xbb\xbf" or enc != "utf-8-sig" and got[:3] == b"\xef\xbb\xbf":
                    bad.append(f"{which}: byte order mark added or removed")
                bad += check(text, out, which, ["f.py:%d" % n for n in range(50)])
                if text.count("\r\n") != out.count("\r\n") or text.count("\n") != out.count("\n"):
                    bad.append(f"{which}: line ends changed: {got!r}")
                if round_ == 0:
                    content[path] = (enc, text) if bad else (enc, out)
            if bad:
                break
    finally:
        shutil.rmtree(d)
    r = Result(bad[:3], [hash(repr(case))], 2, len(bad))
    r.runs = 2
    return r


def file_cases(quick):
    n = range(len(FILES))
    for which in ("keys", "props"):
        for direct in (False, True):
            for name in ("m{}.py", "m{}.txt"):
                for f in n:
                    for end in ("\n", "\r\n", "mixed"):
                        yield which, (f,), (end,), direct, name
        for fs in itertools.product(n, n):
            for ends in [("\n", "\r\n")] if quick else itertools.product(("\n", "\r\n", "mixed"), repeat=2):
                yield which, fs, ends, False, "m{}.py"


def main():
    chk = Check("C30")
    quick = tier() == "quick"
    deadline = time.time() + (420 if quick else 780)
    progs = Programs(quick)
    groups = [("forms", progs.all_forms, judge), ("nested", progs.all_nested, judge), ("contexts", progs.all_contexts, judge),
              ("files", lambda: file_cases(quick), judge_files)]
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per,
                 "both rewriters on every program of the families; the result is compared with an independent transformation of the syntax "
                 "tree, with the text outside of the changed calls and the comments, and rewritten a second time",
                 f"{len(FUNCTIONS)} functions x {len(ATTRS)} attribute forms x {len(CHILDREN)} children x {len(KEYWORDS)} keyword forms; "
                 f"{len(NESTED)}^2 nested expressions x 6 layouts; {len(CONTEXTS)} contexts x {len(SMALL)}^2 forms x layouts x line ends; "
                 f"{len(FILES)} kinds of files",
                 ["a name that is an HTML tag and stands alone is taken for the element of that name",
                  "self-documenting f-string fields ('{x=}') are not part of the programs"])
    chk.done()


if __name__ == "__main__":
    main()
