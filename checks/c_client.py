"""The browser client, built from its sources and run in a virtual browser: C15 C16 C17 C18 C31 (see DESIGN.md)."""
from __future__ import annotations

import itertools
import json
import logging
import os
import re
import shutil
import sys
import tempfile
import time

from mc import js, space
from mc.report import Check, known_findings, tier
from mc.space import Result

BUNDLE = REACT_BUNDLE = None


def frames(r):
    return [[json.loads(f) for f in s] for s in r["sent"]]


# ---------------------------------------------------------------- C16
class Link:
    """What a reconnecting connection has to do."""

    def __init__(self, cfg):
        self.interval, self.cap, self.retries, self.mult = cfg
        self.now = 0
        self.sockets = []         # [created at, state, frames]
        self.queue = []
        self.ready = self.ever = False
        self.used = 0
        self.wait = None          # (due, length) of the armed timer
        self.nxt = min(self.interval, self.cap)
        self.got = []
        self.n = self.m = 0

    def enabled(self):
        ops = ["s"] if self.n < 4 else []
        if not self.ready:
            return ops + ["r"]
        st = self.sockets[-1][1]
        if st == "connecting":
            ops += ["o", "c"]
        if st == "open":
            ops += ["x", "c", "m"] if self.m < 2 else ["x", "c"]
        if st == "closing":
            ops += ["c"]
        if self.wait is not None:
            ops += ["t", "v"] if self.now + 1 < self.wait else ["t"]
        return ops

    def connect(self):
        self.wait = None
        self.sockets.append([self.now, "connecting", []])

    def do(self, op):
        """Perform `op`; returns the operation for the client."""
        last = self.sockets[-1] if self.sockets else None
        if op == "r":
            self.ready = True
            self.connect()
            return ["ready"]
        if op == "s":
            self.n += 1
            msg = {"type": "layout-event", "data": [self.n], "target": "t"}
            (last[2] if last and last[1] == "open" else self.queue).append(msg)
            return ["send", msg]
        if op == "o":
            last[1] = "open"
            self.ever, self.used, self.nxt = True, 0, min(self.interval, self.cap)
            last[2] += self.queue
            self.queue = []
            return ["open"]
        if op == "m":
            self.m += 1
            msg = {"type": "layout-update", "path": "", "model": {"tagName": str(self.m)}}
            self.got.append(msg)
            return ["recv", msg]
        if op == "x":
            last[1] = "closing"
            return ["closing"]
        if op == "c":
            last[1] = "closed"
            if self.ever and self.used < self.retries:
                self.used += 1
                self.wait = self.now + self.nxt
                self.nxt = min(self.nxt * self.mult, self.cap)
            return ["close"]
        if op == "t":
            d = self.wait - self.now
            self.now = self.wait
            self.connect()
            return ["advance", d]
        if op == "v":   # time passes, but not enough; the page becomes visible or online again
            self.now = self.wait - 1
            return ["advance", self.wait - 1 - (self.now_before)]
        raise AssertionError(op)


def link_words(cfg, depth):
    """All words of operations that are possible one after the other."""
    def go(word):
        if len(word) == depth:
            yield word
            return
        ref = Link(cfg)
        for o in word:
            ref.now_before = ref.now
            ref.do(o)
        en = ref.enabled()
        if not en:
            yield word
        for o in en:
            yield from go(word + (o,))
    yield from go(())


def judge_link(case):
    cfg, word = case
    ref = Link(cfg)
    ops = []
    prog = []
    for o in word:
        ref.now_before = ref.now
        ops.append(ref.do(o))
        prog.append((len(ref.sockets), tuple(len(s[2]) for s in ref.sockets), ref.wait and ref.wait - ref.now))
    b = js.browser(BUNDLE)
    out = b.run([["client", {"interval": cfg[0], "maxInterval": cfg[1], "maxRetries": cfg[2], "backoffMultiplier": cfg[3]}]] + ops, every=True)
    res = Result(transitions=len(ops), states=[hash((cfg, tuple(word[:i + 1]))) for i in range(len(word))])
    t0 = out[0]["now"]
    for i, (o, r, (nsock, counts, wait)) in enumerate(zip(word, out[1:], prog)):
        where = f"after {''.join(word[:i + 1])} with interval, maximum, retries, multiplier {cfg}"
        if r["errors"]:
            res.failures.append(f"{where}: {r['errors'][0][:300]}")
            break
        if len(r["sockets"]) != nsock:
            res.failures.append(f"{where}: {len(r['sockets'])} connections were opened instead of {nsock}")
            break
        if [len(s) for s in r["sent"]] != list(counts):
            res.failures.append(f"{where}: messages delivered per connection {[len(s) for s in r['sent']]} instead of {list(counts)}")
            break
        want = [] if wait is None else [wait]
        if r["timers"] != want:
            res.failures.append(f"{where}: waits {r['timers']} instead of {want}")
            break
    else:
        r = out[-1]
        got = [[{k: v for k, v in f.items()} for f in s] for s in frames(r)]
        if got != [s[2] for s in ref.sockets]:
            res.failures.append(f"word {''.join(word)}: delivered {got} instead of {[s[2] for s in ref.sockets]}")
        if [s[0] - t0 for s in r["sockets"]] != [s[0] for s in ref.sockets]:
            res.failures.append(f"word {''.join(word)}: connections at {[s[0] - t0 for s in r['sockets']]} instead of {[s[0] for s in ref.sockets]}")
        if r["lost"]:
            res.failures.append(f"word {''.join(word)}: sent on a closed connection: {r['lost']}")
        recv = b.run([["received"]])["values"]
        if recv != [ref.got]:
            res.failures.append(f"word {''.join(word)}: handed over {recv} instead of {ref.got}")
        res.outcome = hash((repr(got), repr(r["timers"])))
    return res


def judge_mount(case):
    """The options of the mounted client: a connection that is lost, and then never comes back."""
    props, place, *more = case
    want = [props.get("reconnectInterval", 750), props.get("reconnectMaxInterval", 60000), props.get("reconnectMaxRetries", 150),
            props.get("reconnectBackoffMultiplier", 1.25)]
    b = js.browser(BUNDLE)
    n = want[2] if more else min(want[2], 6)
    protocol, host, prefix = more or ("http:", "testserver", "/reactpy/")
    (p0, s0), (p1, s1) = place
    ops = [["start", {"props": {**props, "componentPath": "comp/", "pathPrefix": prefix}, "path": p0, "search": s0, "protocol": protocol, "host": host}], ["open"], ["location", p1, s1], ["close"]]
    cur, waits = min(want[0], want[1]), []
    for _ in range(n):
        waits.append(cur)
        ops += [["advance", cur], ["close"]]
        cur = min(cur * want[3], want[1])
    out = b.run(ops, every=True)
    res = Result(transitions=len(ops), states=[hash(repr(case))])
    what = f"options {props}"
    if any(r["errors"] for r in out):
        res.failures.append(f"{what}: {[r['errors'] for r in out if r['errors']][0]}")
        return res
    got = [r["timers"][0] if r["timers"] else None for r in out[3::2]][:n + 1]
    exp = waits + [cur if n < want[2] else None]
    if [g is None or abs(g - e) < 1e-6 if e is not None else g is None for g, e in zip(got, exp)] != [True] * len(exp):
        res.failures.append(f"{what}: waits {got} instead of {exp}")
    from urllib.parse import parse_qs, urlsplit
    for i, (_, url, _) in enumerate(out[-1]["sockets"]):
        u = urlsplit(url)
        path, search = (p0, s0) if i == 0 else (p1, s1)
        exp = {"path": [path], **({"qs": [search]} if search else {})}
        if (u.scheme, u.netloc, u.path) != ("wss" if protocol == "https:" else "ws", host, f"{prefix}comp/") or parse_qs(u.query) != exp:
            res.failures.append(f"connection {i} of a page at {protocol}//{host} goes to {url} instead of {prefix}comp/ with {exp}")
    res.outcome = hash(repr(got))
    return res


HEARERS = (("h0", "x"), ("h1", "x"), ("h2", "y"))
MESSAGES = ({"type": "x", "n": 1}, {"type": "y"}, {"type": "z"}, {"n": 2}, {"type": "x", "type2": "y"})


def subscriptions(q):
    """Words of subscribing, unsubscribing and messages, after the first handler has been added and the connection opened."""
    def go(word, active, ever):
        yield word
        if len(word) < (5 if q else 7):
            for h, _ in HEARERS:
                if h in active:
                    yield from go(word + (("unsubscribe", h),), active - {h}, ever)
                elif h not in ever:
                    yield from go(word + (("subscribe", h),), active | {h}, ever | {h})
            if word and word[-1][0] != "recv" or len(word) < 3:
                for i in range(len(MESSAGES)):
                    yield from go(word + (("recv", i),), active, ever)
    return go((), frozenset(["h0"]), frozenset(["h0"]))


def judge_subscriptions(word):
    b = js.browser(BUNDLE)
    types = dict(HEARERS)
    ops = [["client", {"interval": 1000, "maxInterval": 1000, "maxRetries": 2, "backoffMultiplier": 2}], ["subscribe", "h0", "x"], ["open"]]
    active, want = ["h0"], []
    for op, a in word:
        if op == "recv":
            ops.append(["recv", MESSAGES[a]])
            want += [[h, MESSAGES[a]] for h in active if types[h] == MESSAGES[a].get("type")]
        elif op == "subscribe":
            ops.append(["subscribe", a, types[a]])
            active.append(a)
        else:
            ops.append(["unsubscribe", a])
            active.remove(a)
    r = b.run(ops + [["received"]])
    res = Result(transitions=len(ops), states=[hash(word[:k]) for k in range(1, len(word) + 1)], outcome=hash(repr(want)))
    if r["errors"]:
        res.failures.append(f"{word}: {r['errors'][0]}")
    elif r["values"][-1] != want:
        res.failures.append(f"{word}: handlers were called with {r['values'][-1]} instead of {want}")
    return res


def mounts(q):
    opts = {"reconnectInterval": [None, 0, 1, 500, 2000], "reconnectMaxInterval": [None, 1000, 100000], "reconnectMaxRetries": [None, 0, 1, 3],
            "reconnectBackoffMultiplier": [None, 1, 1.5]}
    places = [(("/start", ""), ("/start", "")), (("/start", "?a=1&b=%20"), ("/start", "")), (("/start", ""), ("/x/y ü", "?c=d#e"))]
    for vals in itertools.product(*opts.values()):
        yield {k: v for k, v in zip(opts, vals) if v is not None}, places[0]
    for pl in places[1:]:
        yield {"reconnectMaxRetries": 2}, pl
        for protocol in ("http:", "https:"):
            for host in ("testserver", "other.test:8443"):
                for prefix in ("/reactpy/", "/", "/a/b/"):
                    yield {"reconnectMaxRetries": 1}, pl, protocol, host, prefix
    yield {}, places[0], "http:", "testserver", "/reactpy/"


def c16(q):
    cfgs = [(1000, 3000, 3, 2), (1000, 1000, 2, 2), (1000, 60000, 0, 1.5), (1000, 60000, 1, 1), (5000, 2000, 3, 2), (800, 10000, 4, 1.25)]
    depth = 11 if q else 14

    def cases():
        for i, cfg in enumerate(cfgs):
            for w in link_words(cfg, depth if i == 0 else depth - 1):
                yield cfg, w

    return ([("connections", cases, judge_link), ("options", lambda: mounts(q), judge_mount),
             ("handlers of messages", lambda: subscriptions(q), judge_subscriptions)],
            f"every sequence of up to {depth} of: open, refuse, lose, start closing, time passing, message in either direction; {len(cfgs)} reconnect configurations, every combination of 180 mount options; words of {5 if q else 7} of adding and removing three handlers and five messages",
            ["a browser reports open and close events once each, with the matching readyState", "messages handed to an open socket arrive"])
# ---------------------------------------------------------------- C17
INPUTS = ("input", "select", "textarea")


def event_of(tag, name, attrs):
    base = name.lower()[2:]
    if base == "change" and (tag == "textarea" or (tag == "input" and attrs.get("type") not in ("file", "checkbox", "radio"))):
        return "input"  # preact/compat
    return base


def shown(model, loading=False):
    """The document nodes a model stands for."""
    if isinstance(model, str):
        return [model]
    if "error" in model:
        return [{"tag": "pre", "children": [model["error"]]}] if model["error"] else []
    kids = [n for c in model.get("children", []) for n in shown(c, loading)]
    tag, at = model["tagName"], dict(model.get("attributes") or {})
    if tag == "":
        return kids
    if tag == "script":
        s = {"tag": "script"}
        if at:
            s["attrs"] = {k: str(v) for k, v in at.items()}
        if kids:
            s["children"] = kids[:1]
        return [{"tag": "div", "children": [s]}]
    out = {"tag": tag}
    if model.get("importSource"):
        fallback = model["importSource"]["fallback"]
        if loading:
            return ([] if not fallback else [{"tag": "span", "children": [fallback]}] if isinstance(fallback, str) else shown(fallback)) + [{"tag": "span"}]
        return [{"tag": "span", "attrs": {"rendered": rendered(model)}}]
    attrs = {}
    for k, v in at.items():
        if k in ("key", "_reactpy_ack_seq") or v is None or v is False or (k == "value" and tag in INPUTS):
            continue
        if k == "style":
            out["style"] = v
        else:
            attrs[{"className": "class", "htmlFor": "for"}.get(k, k)] = "" if v is True else str(v)
    if attrs:
        out["attrs"] = attrs
    on = sorted({event_of(tag, e, at) for e in [*(model.get("eventHandlers") or {}), *(model.get("inlineJavaScript") or {})]})
    if on:
        out["on"] = on
    if tag in INPUTS:
        out["value"] = at.get("value", "")
    if kids:
        out["children"] = kids
    return [out]


MODULE = """
export const Box = "Box", Round = "Round", Ns = {Deep: "Ns.Deep"};
const f = (v) => typeof v === "function" ? "fn" : v;
const calls = (globalThis.moduleCalls ||= []);
export const bind = (node, ctx, id = calls.push([calls.length, "bind"])) => ({
  create: (t, p, c) => ({ t: typeof t === "function" ? t.name : t, p: Object.fromEntries(Object.entries(p || {}).map(([k, v]) => [k, f(v)]).sort()), c: c || [], fire: p }),
  render: (e) => { calls.push([id, "render"]); node.setAttribute("rendered", JSON.stringify(e, (k, v) => k === "fire" ? undefined : v)); node.element_ = e; },
  unmount: () => { calls.push([id, "unmount"]); node.removeAttribute("rendered"); node.element_ = null; },
});
"""


def source(n):
    import base64
    return f"data:text/javascript;base64,{base64.b64encode((MODULE + f'//{n}').encode()).decode()}"


SOURCES = [source(0), source(1)]


def rendered(model):
    """What the module above records of the component it is asked to display."""
    root = model["importSource"]

    def el(m):
        if isinstance(m, str):
            return m
        src = m.get("importSource")
        if src and src["source"] != root["source"]:
            return {"t": "reactpy-child", "p": {"ref": "fn"}, "c": []}
        p = {**(m.get("attributes") or {}), **{k: "fn" for k in m.get("eventHandlers") or {}}}
        kids = [el(c) for c in m.get("children", [])]
        return {"t": m["tagName"] or "Fragment", "p": dict(sorted(p.items())), "c": kids}
    return json.dumps(el(model), separators=(",", ":"), ensure_ascii=False)


def replace(view, path, model):
    """The view with the addressed node replaced."""
    if path == "":
        return model
    parts = path.split("/")[1:]

    def go(node, i):
        if i == len(parts):
            return model
        if isinstance(node, list):
            k = int(parts[i])
            return [go(x, i + 1) if j == k else x for j, x in enumerate(node)]
        return {**node, parts[i]: go(node[parts[i]], i + 1)}
    return go(view, 0)


def paths(view, at=""):
    """Where a component may be displayed below the root: every node that is an element or a wrapper."""
    for i, c in enumerate(view.get("children", []) if isinstance(view, dict) else []):
        if isinstance(c, dict):
            p = f"{at}/children/{i}"
            yield p
            yield from paths(c, p)


def C(*kids):
    return {"tagName": "", "children": list(kids)} if kids else {"tagName": ""}


ERR, ERR0 = {"tagName": "", "error": "ValueError: boom"}, {"tagName": "", "error": ""}
LEAVES = [
    {"tagName": "p"},
    {"tagName": "p", "attributes": {"id": "a", "className": "c"}, "children": ["x"]},
    {"tagName": "p", "attributes": {"id": "a", "title": "t", "hidden": True}, "eventHandlers": {"onClick": {"target": "T1"}}, "children": ["y", "z"]},
    {"tagName": "p", "attributes": {"id": "a", "style": {"color": "red"}},
     "eventHandlers": {"onClick": {"target": "T2", "preventDefault": True, "stopPropagation": True}, "onKeyDown": {"target": "T3"}}},
    {"tagName": "b", "attributes": {"id": "a", "key": "k"}, "inlineJavaScript": {"onClick": "this.setAttribute('ran', 'yes')"}},
    {"tagName": "input", "attributes": {"id": "i", "value": "v1"}, "eventHandlers": {"onChange": {"target": "T4"}}},
    {"tagName": "input", "attributes": {"id": "i", "value": "v2", "type": "checkbox"}},
    {"tagName": "textarea", "attributes": {"id": "i", "value": "v3", "key": "k"}},
    {"tagName": "script", "attributes": {"key": "s1"}, "children": ["s1"]},
    {"tagName": "script", "attributes": {"key": "s2", "src": "u"}},
]


def nested():
    yield {"tagName": "div", "attributes": {"id": "d"}, "eventHandlers": {"onClick": {"target": "TD"}}, "children": [C(LEAVES[2]), "t", C(LEAVES[1])]}
    yield {"tagName": "div", "children": [C(LEAVES[3]), C(LEAVES[3] | {"attributes": {"id": "b"}})], "eventHandlers": {"onClick": {"target": "TE"}}, "attributes": {"id": "d"}}
    yield {"tagName": "ul", "children": [{"tagName": "li", "attributes": {"key": "1", "id": "l1"}, "children": ["1"]}, {"tagName": "li", "attributes": {"key": "2", "id": "l2"}, "children": [C("2")]}]}
    yield {"tagName": "ul", "children": [{"tagName": "li", "attributes": {"key": "2", "id": "l2"}, "children": [C("2")]}, C({"tagName": "li", "attributes": {"key": "1"}})]}
    yield C("only text")
    yield C()
    yield C(LEAVES[0], "t", LEAVES[5])


ROOTS = [ERR, ERR0, C()] + [C(m) for m in [*LEAVES, *nested()]]
PARTS = [ERR, C(), C("u")] + [C(LEAVES[i]) for i in (0, 2, 3, 4, 5, 8)] + [C({"tagName": "div", "children": [C(LEAVES[1]), C(LEAVES[2])]})]


def successors(view, parts, roots):
    for m in roots:
        yield "", m
    for p in paths(view):
        for m in parts:
            yield p, m


def histories(depth, parts=PARTS, roots=ROOTS, first=None):
    def go(hist, view):
        yield hist, None
        if len(hist) < depth:
            for p, m in successors(view, parts, roots):
                yield from go((*hist, (p, m)), replace(view, p, m))
    for m in first or roots:
        for h, _ in go((("", m),), m):
            if len(h) == depth:
                yield h


def elements(view, out=None, chain=()):
    out = [] if out is None else out
    if isinstance(view, dict) and "error" not in view:
        if view["tagName"]:
            chain = (view, *chain)
            if (view.get("attributes") or {}).get("id"):
                out.append(chain)
        for c in view.get("children", []):
            elements(c, out, chain)
    return out


def expect_event(chain, kind):
    """(targets in order, default prevented) of an event of `kind` at the first element of the chain."""
    sent, prevented = [], False
    for m in chain:
        stop = False
        for name, h in (m.get("eventHandlers") or {}).items():
            if event_of(m["tagName"], name, m.get("attributes") or {}) == kind:
                sent.append(h["target"])
                prevented |= bool(h.get("preventDefault"))
                stop |= bool(h.get("stopPropagation"))
        if stop:
            break
    return sent, prevented


def judge_updates(case):
    """Updates one after another, settling in between or arriving together."""
    hist, together = case
    view, views = None, []
    ops = [["start", {}], ["open"]]
    for p, m in hist:
        view = replace(view, p, m)
        views.append(view)
        ops.append(["recv", {"type": "layout-update", "path": p, "model": m}])
    b = js.browser(BUNDLE)
    res = Result(transitions=len(hist), states=[hash(repr(v)) for v in views])
    if together:
        ops[2:] = [["batch", [o[1] for o in ops[2:]]]]
    out = b.run(ops, every=True)
    outs, views = (out[-1:], views[-1:]) if together else (out[2:], views)
    for i, (r, v) in enumerate(zip(outs, views)):
        if r["errors"]:
            res.failures.append(f"update {i}: {r['errors'][0][:300]}")
            return res
        if r["view"] != shown(v):
            res.failures.append(f"after update {i} the page shows {json.dumps(r['view'])} instead of {json.dumps(shown(v))}")
            return res
    ids = elements(view)
    probes, want = [], []
    for chain in ids:
        if sum(c[0]["attributes"]["id"] == chain[0]["attributes"]["id"] for c in ids) > 1:
            continue
        for kind in ("click", "keydown", "input"):
            probes.append(["event", chain[0]["attributes"]["id"], kind, {}])
            want.append(expect_event(chain, kind))
    r = b.run([["modified"]] + probes)
    if r["values"][0]:
        res.failures.append(f"the client modified an update it received earlier: {r['values'][0][:600]}")
    got_targets = [f["target"] for s in frames(r) for f in s]
    if got_targets != [t for w in want for t in w[0]]:
        res.failures.append(f"events {probes} reached {got_targets} instead of {[w[0] for w in want]}")
    if [v["prevented"] for v in r["values"][1:]] != [w[1] for w in want]:
        res.failures.append(f"events {probes} were prevented: {r['values'][1:]} instead of {[w[1] for w in want]}")
    for chain in ids:
        if "inlineJavaScript" in chain[0] and ["event", chain[0]["attributes"]["id"], "click", {}] in probes and '"ran": "yes"' not in json.dumps(r["view"]):
            res.failures.append("an inline script did not run at its element")
    res.outcome = hash(json.dumps(r["view"]))
    return res


def imports():
    def imp(name, n, unmount=False, fallback=None, **kw):
        return {"tagName": name, "importSource": {"source": SOURCES[n], "sourceType": "URL", "fallback": fallback, "unmountBeforeUpdate": unmount}, **kw}
    box = {"attributes": {"id": "x", "a": 1, "style": {"c": "d"}}, "eventHandlers": {"onPick": {"target": "T9"}}}
    yield imp("Box", 0)
    yield imp("Box", 0, **box, children=["t", {"tagName": "p", "attributes": {"title": "q"}, "children": ["r"]}])
    yield imp("Box", 0, True, **box)
    yield imp("Box", 0, True, attributes={"a": 2})
    yield imp("Round", 0, children=[C("u", imp("Box", 0, attributes={"b": 3}))])
    yield imp("Round", 1, fallback="wait")
    yield imp("Round", 1, children=[imp("Box", 0)])
    yield imp("Box", 0, fallback={"tagName": "b", "children": ["wait"]})


def judge_imports(case):
    """Components of JavaScript modules: what their modules are asked to display after each update."""
    hist = case
    view = None
    b = js.browser(BUNDLE)
    b.run([["start", {}], ["open"]])
    res = Result(transitions=len(hist))
    res.states = states = []
    before = []
    for i, (p, m) in enumerate(hist):
        view = replace(view, p, m)
        states.append(hash(repr(view)))
        first = b.run([["recv", {"type": "layout-update", "path": p, "model": m}]], effects=False)
        r = b.run([["effects"], ["settle", 12]])
        for e in first["errors"] + r["errors"]:
            res.failures.append(f"update {i}: {e[:300]}")
        if not before and first["view"] != shown(view, True):
            res.failures.append(f"while the modules of update {i} load, the page shows {json.dumps(first['view'])} instead of {json.dumps(shown(view, True))}")
        before = sources(view)
        if r["view"] != shown(view):
            res.failures.append(f"after update {i} the page shows {json.dumps(r['view'])} instead of {json.dumps(shown(view))}")
        if res.failures:
            break
    calls = b.run([["calls"]])["values"][0]
    by = {}
    for n, (ident, what) in enumerate(calls):
        by.setdefault(n + 1 if what == "bind" else ident, []).append(what)
    alive = sum(c[-1] != "unmount" for c in by.values())
    if not res.failures:
        if alive != len(sources(view)) or any(c == ["bind"] for c in by.values()):
            res.failures.append(f"{len(sources(view))} components are displayed, the modules were asked to {calls}")
        if not any(s["unmountBeforeUpdate"] for _, m in hist for _, s in sources(m)) and any("unmount" in c[:-1] for c in by.values()):
            res.failures.append(f"a component was used after it had been unmounted: {calls}")
        if sum(c[0] == "bind" for c in by.values()) > sum(len(sources(m)) for _, m in hist):
            res.failures.append(f"components were bound more often than they appeared: {calls}")
    res.outcome = hash(json.dumps(r["view"]) + json.dumps(calls))
    return res


def sources(m):
    """The import sources of the components a view displays directly."""
    if isinstance(m, str):
        return []
    if m.get("importSource"):
        return [(m["tagName"], m["importSource"])]
    return [x for c in m.get("children", []) for x in sources(c)]


def import_histories(q):
    ms = list(imports())
    roots = [C(m) for m in ms] + [C(LEAVES[1])]
    yield from histories(2, [C(m) for m in ms[:5]] + [C("u")], roots)
    yield from histories(3, [C(m) for m in (ms if not q else ms[4:7])], roots)


# -- modules that take their time, and components inside each other
LIVE_HEAD = """
const { createElement: h, render, useEffect } = globalThis.modulePreact;
const N = %d;
await globalThis.moduleGate(N);
const calls = (globalThis.moduleCalls ||= []);
let bound = 0;
function note(id) { calls.push([id, "render"]); return () => calls.push([id, "unmount"]); }
"""
# modules that export no `bind` are displayed by React if the page has it, and otherwise by the client itself
LIVE_PLAIN = LIVE_HEAD + """
const comp = (name) => ({ children, onPick, ...rest }) => {
  useEffect(() => note(`${N}.${bound++}`), []);
  return h("section", { id: rest.id, title: name + N + JSON.stringify(rest), onClick: onPick }, ...[children ?? []].flat());
};
export const Box = comp("Box"), Round = comp("Round"), Ns = { Deep: comp("Deep") };
"""
LIVE_BIND = LIVE_HEAD + """
const comp = (name) => ({ children, onPick, ...rest }) => h("section", { id: rest.id, title: name + N + JSON.stringify(rest), onClick: onPick }, ...[children ?? []].flat());
export const Box = comp("Box"), Round = comp("Round"), Ns = { Deep: comp("Deep") };
export const bind = (node, ctx) => {
  const id = `${N}.${bound++}`, at = node.id_;
  calls.push([id, "bind", at]);
  return {
    create: (t, p, c) => h(t, p, ...(c || [])),
    render: (e) => { calls.push([id, "render", at]); render(e, node); },
    unmount: () => { calls.push([id, "unmount", at]); render(null, node); },
  };
};
"""
LIVE = {"bind": LIVE_BIND, "named": LIVE_BIND, "preact": LIVE_PLAIN, "react": LIVE_PLAIN}
CASE = itertools.count()


def live_views():
    def imp(name, n, *kids, unmount=False, fallback=None, **kw):
        m = {"tagName": name, "importSource": {"source": n, "sourceType": "URL", "fallback": fallback, "unmountBeforeUpdate": unmount}, **kw}
        return {**m, "children": list(kids)} if kids else m
    pick = {"eventHandlers": {"onPick": {"target": "T1"}}}
    inner = imp("Box", 1, "in", attributes={"id": "i", "a": 1}, eventHandlers={"onPick": {"target": "T2"}})
    yield "own 0", C(imp("Box", 0, "t", attributes={"id": "o"}, **pick))
    yield "own 1", C(imp("Round", 1, fallback="wait"))
    yield "unmounted 0", C(imp("Box", 0, "u", unmount=True, attributes={"id": "o", "b": 2}, **pick))
    yield "1 in 0", C(imp("Box", 0, inner, attributes={"id": "o"}, **pick))
    yield "2 in 0", C(imp("Box", 0, imp("Ns.Deep", 2, attributes={"id": "i"}), attributes={"id": "o"}))
    yield "1 in p in 0", C(imp("Box", 0, {"tagName": "p", "attributes": {"title": "q"}, "children": ["s", imp("Round", 1, fallback="w")]}))
    yield "both in 0", C(imp("Round", 0, imp("Box", 2), inner, {"tagName": "b"}))
    yield "0 in 1 in 0", C(imp("Box", 0, imp("Box", 1, imp("Box", 0, "x"), "y")))
    yield "missing", C(imp("Box", 0, imp("Missing", 1), imp("Ns.Missing", 0), "m"), imp("Missing.Deep", 0))
    yield "none", C({"tagName": "p"})
    yield "side by side", C(imp("Round", 0), imp("Box", 1), imp("Box", 0, "2"))


EXPORTS = {"Box": "Box", "Round": "Round", "Ns.Deep": "Deep"}


def live_shown(m, loaded, root=None):
    """The document nodes of a view, of whose modules some are loaded."""
    if isinstance(m, str):
        return [m]
    own = m.get("importSource")
    n = own and own["source"]
    if own and root is not None and n != root:  # in an element of its own, rendered by its own module
        box = {"tag": "div", "style": {"display": "contents"}}
        kids = live_shown(m, loaded, n) if n in loaded else []
        return [{"tag": "reactpy-child", "children": [box | ({"children": kids} if kids else {})]}]
    if own and root is None:
        if n not in loaded:
            return ([{"tag": "span", "children": [own["fallback"]]}] if own["fallback"] else []) + [{"tag": "span"}]
        kids = live_shown(m, loaded, n)
        return [{"tag": "span"} | ({"children": kids} if kids else {})]
    kids = [x for c in m.get("children", []) for x in live_shown(c, loaded, root)]
    if own:
        if m["tagName"] not in EXPORTS:
            return []
        at = m.get("attributes") or {}
        out = {"tag": "section", "attrs": ({"id": at["id"]} if "id" in at else {}) | {"title": f"{EXPORTS[m['tagName']]}{n}{json.dumps(at, separators=(',', ':'))}"}}
        if m.get("eventHandlers"):
            out["on"] = ["click"]
    elif m["tagName"] == "":
        return kids
    else:
        out = {"tag": m["tagName"]} | ({"attrs": m["attributes"]} if "attributes" in m else {})
    return [out | ({"children": kids} if kids else {})]


def live_uses(m, loaded, root=None):
    """How often each module is asked to render part of the view."""
    if isinstance(m, str):
        return []
    own = m.get("importSource")
    n = own["source"] if own else root
    if own and n != root:
        if n not in loaded:
            return []
        if m["tagName"] not in EXPORTS:
            return [n]
    elif own and m["tagName"] not in EXPORTS:
        return []
    return ([n] if own and n != root else []) + [x for c in m.get("children", []) for x in live_uses(c, loaded, n)]


def judge_modules(case):
    """A word of updates of the whole view and of modules that arrive (or fail), in any order; everything settles
    after each of them, or only in the end."""
    import base64
    word, each, *variant = case
    kind = variant[0] if variant else "bind"
    views = dict(live_views())
    tag = f"{os.getpid()}.{next(CASE)}"
    url = {n: "data:text/javascript;base64," + base64.b64encode((LIVE[kind] % n + "//" + tag).encode()).decode() for n in range(3)}
    config = {}
    if kind == "named":
        base = "https://other.test/app/modules/"
        name = {n: f"pkg{n}@1.0.0-{tag}/x ü.js" for n in range(3)}
        config = {"served": {base + name[n]: url[n] for n in range(3)}, "protocol": "https:", "host": "other.test", "props": {"pathPrefix": "/app/"}}
        url = name

    def model(m):
        if isinstance(m, str):
            return m
        m = {**m, "children": [model(c) for c in m["children"]]} if "children" in m else m
        return {**m, "importSource": {**m["importSource"], "source": url[m["importSource"]["source"]],
                                      "sourceType": "NAME" if kind == "named" else "URL"}} if "importSource" in m else m
    b = js.browser(REACT_BUNDLE if kind == "react" else BUNDLE)
    b.run([["gates"], ["start", config], ["open"], ["roots"]])
    res = Result(transitions=len(word))
    res.states = states = []
    view, loaded, failed = C(), set(), set()
    end = [("load", n) for n in range(3) if not any(o in (("load", n), ("fail", n)) for o in word)]
    for i, (op, x) in enumerate([*word, *end, ("settle", 0)]):
        if op == "update":
            view = views[x]
            r = b.run([["recv", {"type": "layout-update", "path": "", "model": model(view)}]], effects=each)
        elif op in ("load", "fail"):
            (loaded if op == "load" else failed).add(x)
            r = b.run([[op, x]], effects=each)
        errors = r["errors"]
        if each or op == "settle":
            r = b.run([["settle", 12]])
            errors += r["errors"]
            want = live_shown(view, loaded)
            states.append(hash(repr((want, word[:i + 1]))))
            if r["view"] != want:
                res.failures.append(f"after {[*word, *end][:i + 1]} the page shows {json.dumps(r['view'])} instead of {json.dumps(want)}")
        res.failures += [e[:300] for e in errors if "module failed" not in e]
        if res.failures:
            break
    calls = b.run([["calls"]])["values"][0]
    last = {c[0]: c[1] for c in calls}
    if not res.failures:
        alive = sorted(int(k.split(".")[0]) for k, v in last.items() if v == "render")
        uses = sorted(live_uses(view, loaded))
        if kind in ("preact", "react"):  # these report each component
            used = sorted(int(x) for x in re.findall(r'"title": "(?:Box|Round|Deep)(.)', json.dumps(r["view"])))
            if alive != used:
                res.failures.append(f"components of the modules {used} are displayed, those of {alive} are mounted: {calls}")
        elif alive != uses:
            res.failures.append(f"the modules display {uses}, they were asked to {calls}")
        if kind == "react":
            roots = dict(b.run([["roots"]])["values"][0])
            if sum(v == "render" for v in roots.values()) != len(uses):
                res.failures.append(f"there are {sum(v == 'render' for v in roots.values())} roots of React for {len(uses)} places")
        for m in [m for m in walk(view) if m.get("eventHandlers") and m["importSource"]["source"] in loaded]:
            if f'"id": "{m["attributes"]["id"]}"' not in json.dumps(r["view"]):
                continue  # it is inside one that could not be loaded
            before = len(r["sent"][-1])
            r = b.run([["event", m["attributes"]["id"], "click", {}]])
            got = [json.loads(x) for x in r["sent"][-1][before:]]
            if [g.get("target") for g in got] != [h["target"] for h in inner_first(view, m)]:
                res.failures.append(f"a click at {m['attributes']['id']} was reported as {got}")
    res.outcome = hash(json.dumps(r["view"]).replace(tag, ""))
    return res


def walk(m):
    if not isinstance(m, str):
        yield m
        for c in m.get("children", []):
            yield from walk(c)


def inner_first(view, m):
    """The handlers that a click at a component reaches: its own, and those of the components around it."""
    def find(n):
        if n is m:
            return [n]
        for c in n.get("children", []) if not isinstance(n, str) else []:
            got = find(c)
            if got:
                return [*got, n]
        return []
    return [h for n in find(view) for h in (n.get("eventHandlers") or {}).values()]


def module_words(q):
    names = [n for n, _ in live_views()]

    def words(updates, arrivals):
        if not updates and not arrivals:
            yield ()
        if updates:
            for n in names:
                for w in words(updates - 1, arrivals):
                    yield (("update", n), *w)
        for a in arrivals:
            for w in words(updates, [x for x in arrivals if x[1] != a[1]]):
                yield (a, *w)
    both = [("load", 0), ("load", 1)]
    for kind in ("preact", "react", "named"):
        for each in (True, False):
            for w in words(2, both) if kind != "named" else words(1, both):
                yield w, each, kind
        if not q:
            for w in words(3, [("load", 1)]):
                yield (("load", 0), *w), True, kind
    for each in (True, False):
        for w in words(2, both + [("load", 2)]):
            yield w, each
        for w in words(2, both + [("fail", 0), ("fail", 1)]):
            yield w, each
        if not q:
            for w in words(3, [("load", 1), ("load", 2)]):
                yield (("load", 0), *w), each
    if q:
        nested = ["own 0", "1 in 0", "2 in 0", "0 in 1 in 0", "none"]
        for w in words(3, [("load", 1), ("load", 2)]):
            if all(x in nested for o, x in w if o == "update"):
                yield (("load", 0), *w), True


# -- the client that runs in the browser's Python
def pyscript():
    """The layout handler of PyScript pages, with the browser's modules replaced."""
    mod = sys.modules.get("verif_layout_handler")
    if mod:
        return mod
    import importlib.util
    import types

    for name, attrs in (("js", {"document": None}), ("pyodide", {}), ("pyodide.ffi", {}), ("pyodide.ffi.wrappers", {"add_event_listener": None}),
                        ("pyscript", {}), ("pyscript.js_modules", {"morphdom": types.SimpleNamespace()})):
        sys.modules[name] = types.ModuleType(name)
        sys.modules[name].__dict__.update(attrs)
    import reactpy
    path = os.path.join(os.path.dirname(reactpy.__file__), "executors/pyscript/layout_handler.py")
    spec = importlib.util.spec_from_file_location("verif_layout_handler", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules["verif_layout_handler"] = mod
    spec.loader.exec_module(mod)
    mod.js.document = Doc()
    mod.morphdom.default = lambda old, new: setattr(old, "kids", list(new.kids))
    mod.add_event_listener = lambda el, ev, fn: el.on.setdefault(ev, []).append(fn)
    return mod


class Style:
    pass


class Node:
    def __init__(self, tag):
        self.tag, self.attrs, self.style, self.kids, self.on, self.className = tag, {}, Style(), [], {}, None

    def setAttribute(self, k, v):
        self.attrs[k] = v

    def appendChild(self, c):
        self.kids.append(c)

    def cloneNode(self, deep):
        return Node(self.tag)

    def remove(self):
        pass

    def describe(self):
        out = {"tag": self.tag}
        a = {k: v for k, v in self.attrs.items() if k != "key"}
        if self.className is not None:
            a["class"] = self.className
        if a:
            out["attrs"] = a
        if vars(self.style):
            out["style"] = dict(vars(self.style))
        if self.on:
            out["on"] = sorted(self.on)
        kids = [k if isinstance(k, str) else k.describe() for k in self.kids]
        if kids:
            out["children"] = kids
        return out


class Doc:
    def __init__(self):
        self.root = Node("div")

    def getElementById(self, i):
        return self.root

    def createElement(self, tag):
        return Node(tag)

    def createTextNode(self, t):
        return t


def shown_py(model):
    """The document nodes of a model on a PyScript page, which displays no errors and has no import sources."""
    if isinstance(model, str):
        return [model]
    kids = [n for c in model.get("children", []) for n in shown_py(c)]
    if not model["tagName"]:
        return kids
    out = {"tag": model["tagName"]}
    a = {("class" if k == "className" else k): v for k, v in (model.get("attributes") or {}).items() if k not in ("key", "style")}
    if a:
        out["attrs"] = a
    if (model.get("attributes") or {}).get("style"):
        out["style"] = model["attributes"]["style"]
    on = sorted(e.lower()[2:] for e in model.get("eventHandlers") or {})
    if on:
        out["on"] = on
    if kids:
        out["children"] = kids
    return [out]


class PyClient:
    """The PyScript layout handler; updates are handed over without a copy, as its loop does."""

    def __init__(self):
        self.mod = pyscript()
        self.handler = self.mod.ReactPyLayoutHandler("u")
        self.root = {}
        self.earlier = []
        self.problems = []

    def apply(self, update, view, delivered=None):
        for i, (u, text) in enumerate(self.earlier):
            if json.dumps(u) != text:
                self.problems.append(f"update {i} was modified before update {len(self.earlier)}: {json.dumps(u)} was {text}")
        try:
            self.handler.update_model(update, self.root)
            self.mod.js.document.root = Node("div")
            self.handler.render_html(None, self.root)
        except Exception as e:
            self.problems.append(f"update {len(self.earlier)} of PyScript's client failed: {e!r}")
            return
        for i, (u, text) in enumerate(self.earlier):
            if json.dumps(u) != text and not self.problems:
                self.problems.append(f"update {len(self.earlier)} modified update {i}: {json.dumps(u)} was {text}")
        self.earlier.append((update, json.dumps(update)))
        if self.root != view:
            self.problems.append(f"PyScript's model is {json.dumps(self.root)} instead of {json.dumps(view)}")
        got = self.mod.js.document.root.describe().get("children", [])
        if got != shown_py(view):
            self.problems.append(f"PyScript's page shows {got} instead of {shown_py(view)}")


def judge_pyscript(case):
    import copy
    view, c = None, PyClient()
    for p, m in case:
        view = replace(view, p, m)
        c.apply(copy.deepcopy({"type": "layout-update", "path": p, "model": m}), view)
        if c.problems:
            break
    return Result(c.problems[:1], [hash(repr(case))], len(case), hash(json.dumps(c.root)))


_last = {}


def run_updates(program, word, mode):
    from checks.layout_h import LayoutHarness
    from mc import explore

    class Harness(LayoutHarness):
        def setup(self):
            super().setup()
            self.py = _last["py"] = PyClient()
            self.messages = _last["messages"] = []

        def receive(self, update):
            self.messages.append(json.dumps(update))
            super().receive(update)
            self.py.apply(update, self.client.view)

    r = explore.execute(Harness, dict(prop="C17", judge=["view"], program=program, acts=[list(word)], mode=mode, settled=True, debug=True), [], None, True)
    return r, _last["messages"], _last["py"].problems[:1]


def judge_layout(case):
    """The updates of a real layout, applied by both clients."""
    program, word, mode = case
    r, msgs, py = run_updates(program, word, mode)
    res = Result(r.failures + py, states=[hash((program, tuple(word[:i]))) for i in range(len(word) + 1)], transitions=r.steps)
    if res.failures:
        return res
    wire = [json.loads(m) for m in msgs]
    one = judge_updates((tuple((m["path"], m["model"]) for m in wire), False))
    res.failures = one.failures
    res.outcome = one.outcome
    return res


def c17(q):
    from checks.c_hist import C28
    from mc.space import words

    def hist(depth, together, roots):
        for h in histories(depth, roots=roots):
            yield h, together

    def layouts():
        for prog, acts in C28.items():
            for mode in ("async", "serial"):
                for w in words(acts, 0, 3 if q else 4):
                    yield prog, w, mode

    few = [ERR, C(), C(LEAVES[1]), C(LEAVES[5]), C(next(nested())), C(LEAVES[0], "t", LEAVES[5])]
    return ([("pairs", lambda: hist(2, False, ROOTS), judge_updates), ("triples", lambda: hist(3, False, few if q else ROOTS), judge_updates),
             ("together", lambda: hist(3, True, few if q else ROOTS), judge_updates),
             ("python, pairs", lambda: histories(2), judge_pyscript), ("python, triples", lambda: histories(3, roots=few if q else ROOTS), judge_pyscript),
             ("imports", lambda: import_histories(q), judge_imports), ("modules", lambda: module_words(q), judge_modules), ("layouts", layouts, judge_layout)],
            "every sequence of 2 updates of every node by 10 replacements from 20 root views, of 3 updates from 6 (thorough: 20) root views, one by one and at once; every word of 2-3 updates by 11 views of nested components and of the arrival or failure of 3 modules, settled after each step or at the end; every history of up to 3 (thorough 4) changes of 16 component programs in both modes",
            ["PyScript's document is replaced by a model of it, and morphdom by a replacement of the children"])


# ---------------------------------------------------------------- C18
T, D = 100, 60
ELEMENTS = {
    # name: (tag, {event: (options, kind of the document's event)})
    "button, throttle": ("button", {"onClick": ({"throttle": T}, "click")}),
    "button, debounce": ("button", {"onClick": ({"debounce": D}, "click")}),
    "button": ("button", {"onClick": ({}, "click")}),
    "button, two": ("button", {"onClick": ({"throttle": T}, "click"), "onKeyDown": ({"throttle": T}, "keydown")}),
    "input": ("input", {"onChange": ({}, "input"), "onKeyDown": ({"throttle": 0, "debounce": 0}, "keydown")}),
    "input, throttle": ("input", {"onChange": ({"throttle": T}, "input")}),
    "input, debounce": ("input", {"onChange": ({"debounce": D}, "input"), "onKeyDown": ({}, "keydown")}),
    "input, both": ("input", {"onChange": ({"debounce": D, "throttle": T}, "input")}),
    "select, two": ("select", {"onChange": ({"debounce": D}, "change"), "onKeyDown": ({"throttle": T}, "keydown")}),
    "invalid": ("input", {"onChange": ({"debounce": -1, "throttle": 1.5}, "input")}),
}


def rate_view(el, swapped, prevent):
    tag, hs = ELEMENTS[el]
    node = {"tagName": tag, "attributes": {"id": "e", "key": "e"},
            "eventHandlers": {n: {"target": n, "preventDefault": prevent, "stopPropagation": prevent, **o} for n, (o, _) in hs.items()}}
    other = {"tagName": tag, "attributes": {"id": "f", "key": "f"}}
    return C({"tagName": "div", "children": [C(other), node] if swapped else [node, C(other)]})


def rate_limit(el, name):
    tag, hs = ELEMENTS[el]
    o = hs[name][0]
    ok = lambda v: v if isinstance(v, int) and v > 0 else None
    return ok(o.get("throttle")), ok(o.get("debounce")) if tag in INPUTS else None


def judge_rate(case):
    """Events of one element: word of event kinds (e, f: first and second handler), time (numbers), late timers (l), renderings (r), removal (x)."""
    el, prevent, word = case
    tag, hs = ELEMENTS[el]
    names = list(hs)
    swapped = False
    ops, now, n = [["start", {}], ["open"], ["recv", {"type": "layout-update", "path": "", "model": rate_view(el, False, prevent)}]], 0, 0
    events = {h: [] for h in names}
    marks = []  # (time, timers were allowed to run)
    gone = False
    for o in word:
        if o in "ef":
            h = names["ef".index(o)]
            n += 1
            ops.append(["event", "e", hs[h][1], {"n": n}])
            events[h].append((now, n))
            marks.append((now, False))
        elif o in "123":
            ms = {"1": 40, "2": 60, "3": 100}[o]
            now += ms
            ops.append(["advance", ms])
            marks.append((now, True))
        elif o == "l":
            now += T
            ops.append(["late", T])
            marks.append((now, False))
        elif o == "r":
            swapped = not swapped
            ops.append(["recv", {"type": "layout-update", "path": "", "model": rate_view(el, swapped, prevent)}])
            marks.append((now, False))
        elif o == "x":
            ops.append(["recv", {"type": "layout-update", "path": "", "model": C("gone")}])
            marks.append((now, False))
    ops.append(["advance", 1000])
    marks.append((now + 1000, True))
    b = js.browser(BUNDLE)
    out = b.run(ops, every=True)
    t0 = out[0]["now"]
    res = Result(transitions=len(word), states=[hash((el, word[:i + 1])) for i in range(len(word))])
    fail = lambda m: res.failures.append(f"{el}, {word}: {m}")
    for r, o in zip(out, ops):
        if r["errors"]:
            fail(r["errors"][0][:300])
            return res
        if o[0] == "event" and (r["value"]["prevented"] != prevent or r["value"]["stopped"] != prevent):
            fail(f"an event was {'' if r['value']['prevented'] else 'not '}prevented and {'' if r['value']['stopped'] else 'not '}stopped")
            return res
    log = [(at - t0, json.loads(f)) for at, f in out[-1]["log"]]
    for h in names:
        S = [(at, f["data"][0]["n"]) for at, f in log if f["target"] == h]
        E = events[h]
        thr, deb = rate_limit(el, h)
        when = dict((k, t) for t, k in E)
        if any(k not in when for _, k in S) or [k for _, k in S] != sorted({k for _, k in S}):
            fail(f"{h} sent {S} for the events {E}")
        elif E and (not S or S[-1][1] != E[-1][1]):
            fail(f"{h}: the last of the events {E} is lost, sent {S}")
        elif not thr and not deb:
            if S != E:
                fail(f"{h} sent {S} for the events {E}")
        elif thr and any(b[0] - a[0] < thr for a, b in zip(S, S[1:])):
            fail(f"{h} sent more than one event within {thr} ms: {S}")
        elif deb and any(at - when[k] < deb for at, k in S):
            fail(f"{h} did not wait for {deb} ms without events: sent {S} for the events {E}")
        elif deb and not thr and any(k2 > k and t2 < at for at, k in S for t2, k2 in E):
            fail(f"{h} sent an older event during a burst: sent {S} for the events {E}")
        else:
            for t, k in E:
                before = [s for s in S if s[1] < k]
                prev = [x for x in E if x[1] < k]
                idle = not prev or (before and before[-1][1] == prev[-1][1])
                if thr and not deb and idle and (not before or t - before[-1][0] >= thr) and (t, k) not in S:
                    fail(f"{h} did not send event {k} at {t} at once: {S}")
            for m, (t, allowed) in enumerate(marks):
                have = [x for x in E if x[0] < t]
                sent = [s for s in S if s[0] <= t]
                if allowed and have and not (sent and sent[-1][1] >= have[-1][1]):
                    due = have[-1][0] + (deb or 0)
                    if thr and sent:
                        due = max(due, sent[-1][0] + thr)
                    if due <= t and not (thr and deb):
                        fail(f"{h}: event {have[-1]} should have been sent at {due}, not later: {S}")
                        break
    res.outcome = hash(repr(log))
    return res


def rate_words(el, depth, prevent):
    two = len(ELEMENTS[el][1]) > 1
    al = "e" + ("f" if two else "") + "12" + ("3" if not two else "") + "rl"
    for n in range(1, depth + 1):
        for w in itertools.product(al, repeat=n):
            if w[0] in "ef" and w[-1] != "r":
                yield el, prevent, "".join(w)
                if n < depth and n < 5:
                    yield el, prevent, "".join(w) + "x"


def c18(q):
    depth = 6 if q else 7

    def cases():
        for el in ELEMENTS:
            limited = any(o for o, _ in ELEMENTS[el][1].values()) and el not in ("invalid", "button, debounce", "input")
            yield from rate_words(el, depth if limited else 4, False)
            yield from rate_words(el, 4, True)
    return ([("events", cases, judge_rate)],
            f"every sequence of up to {depth} events (of two handlers), steps of the clock of 40, 60 and 100 ms, late timers, renderings that move the element and its removal; {len(ELEMENTS)} elements with throttle {T} ms and debounce {D} ms",
            ["debounce is only applied to input, select and textarea, as documented in the client"])


# ---------------------------------------------------------------- C15
class Typing:
    """A user typing into an input of a real layout, with every message, timer and effect under control."""
    PROGRAMS = {
        # name: (handlers, what onChange does to the value, options of onChange, asynchronous: "", "before" or "after")
        "echo": ("c", str, {}, ""),
        "upper": ("c", str.upper, {}, ""),
        "keys": ("ck", str.upper, {}, ""),
        "keyup": ("cu", str.upper, {}, ""),
        "slow": ("c", str.upper, {}, "before"),
        "slow keys": ("ck", str.upper, {}, "before"),
        "slow keyup": ("cu", str.upper, {}, "before"),
        "sets and waits": ("c", str.upper, {}, "after"),
        "debounced": ("c", str.upper, {"debounce": 50}, ""),
        "debounced keys": ("ck", str.upper, {"debounce": 50}, ""),
        "throttled": ("c", str.upper, {"throttle": 50}, ""),
        "throttled keys": ("ck", str.upper, {"throttle": 50}, ""),
        "rejects": ("c", lambda v: v if "b" not in v else None, {}, ""),
        "textarea": ("ck", str.upper, {}, ""),
        "select": ("c", str.upper, {}, ""),
    }

    def __init__(self, case):
        import reactpy
        from reactpy import component, config, event, html, use_state
        from reactpy.core.layout import Layout
        from mc.loop import MCLoop

        self.program, self.mode, self.depth, self.limits = case
        config.REACTPY_ASYNC_RENDERING.current = self.mode == "async"
        config.REACTPY_DEBUG.current = False
        handlers, fn, options, slow = self.PROGRAMS[self.program]
        self.handlers = handlers
        tag = self.program if self.program in ("textarea", "select") else "input"
        self.tag = tag
        self.arrived, self.started = [], set()
        self.typed = 0
        self.text = ""
        self.gates = []
        self.outbox, self.frames = [], []
        self.used = {x: 0 for x in "kKts"}
        self.fed = 0
        self.delivered_known = 0
        self.failures = []
        self.uids = 0
        me = self
        self.loop = MCLoop()

        @component
        def Root():
            value, set_value = use_state("")
            tick, set_tick = use_state(0)
            me.set_value, me.set_tick = set_value, set_tick

            def received(e):
                me.started.add(e["uid"])
                return fn(e["target"]["value"])

            if slow:
                async def change(e):
                    new = received(e)
                    gate = me.loop.create_future()
                    me.gates.append(gate)
                    if slow == "after":
                        set_value(new)
                    await gate
                    if slow == "before":
                        set_value(new)
            else:
                def change(e):
                    new = received(e)
                    if new is not None:
                        set_value(new)

            def key(e):
                me.started.add(e["uid"])
                if e.get("key") == "Enter":
                    set_value("")

            attrs = {"id": "i", "value": value, "data-k": str(me.known()), "data-t": str(tick), "onChange": event(change, **options)}
            if "k" in handlers:
                attrs["onKeyDown"] = key
            if "u" in handlers:
                attrs["onKeyUp"] = lambda e: me.started.add(e["uid"])
            return getattr(html, tag)(attrs)

        self.loop.__enter__()
        self.layout = Layout(Root())
        self.task = self.loop.create_task(self.run())
        self.loop.drain()
        self.b = js.browser(BUNDLE)
        self.client([["start", {}], ["open"]], effects=True)
        if self.limits.get("ready"):
            self.do("u")
            self.do("f")

    async def run(self):
        async with self.layout:
            while True:
                u = await self.layout.render()
                self.outbox.append(json.loads(json.dumps(u)))

    def known(self):
        """The newest keystroke whose text a handler was given, and every event before it as well."""
        k = 0
        for uid, n in self.arrived:
            if uid not in self.started:
                break
            k = max(k, n)
        return k

    def uid(self, n):
        self.uids += 1
        return {"uid": self.uids, "n": n}

    def close(self):
        self.loop.abandon()
        self.loop.__exit__()

    def end(self):
        return self.text, self.known()

    # -- the client's side
    def client(self, ops, effects=False):
        r = self.b.run(ops, effects=effects)
        if r["errors"]:
            self.failures.append(r["errors"][0][:300])
        new = [f for s in r["sent"] for f in s][self.fed:]
        self.fed += len(new)
        self.frames += [json.loads(f) for f in new]
        self.r = r
        for _, old, now in r["writes"]:
            if old != now and self.delivered_known < self.typed and self.typed:
                self.failures.append(f"the text {old!r} was replaced by {now!r}, which the server computed knowing {self.delivered_known} of {self.typed} keystrokes")
        dom = [n for n in r["view"] if isinstance(n, dict)]
        if dom:
            self.text = dom[0]["value"]

    def enabled(self):
        out = []
        if self.frames:
            out.append("d")
        if self.gates:
            out.append("c")
        if self.used["t"] < self.limits["t"]:
            out.append("t")
        if self.used["s"] < self.limits["s"]:
            out.append("s")
        if self.outbox:
            out.append("u")
        if self.r["pending"]:
            out.append("f")
        if self.r["timers"]:
            out.append("a")
        if self.r["view"]:
            if self.used["k"] < self.limits["k"]:
                out.append("k")
            if self.used["K"] < self.limits["K"] and "k" in self.handlers:
                out += ["E", "S"]
        return out

    def do(self, a):
        if a == "k":
            self.used["k"] += 1
            self.typed += 1
            ch = "abcdef"[self.typed - 1]
            ops = []
            if "k" in self.handlers:
                ops.append(["event", "i", "keydown", {"key": ch, **self.uid(self.typed - 1)}])
            new = self.text + ch
            ops.append(["event", "i", "change" if self.tag == "select" else "input", self.uid(self.typed), {"value": new}])
            if "u" in self.handlers:
                ops.append(["event", "i", "keyup", {"key": ch, **self.uid(self.typed)}])
            self.client(ops)
        elif a in "ES":
            self.used["K"] += 1
            self.client([["event", "i", "keydown", {"key": "Enter" if a == "E" else "Shift", **self.uid(self.typed)}]])
        elif a == "u":
            u = self.outbox.pop(0)
            self.delivered_known = int(self.input_of(u["model"])["attributes"]["data-k"])
            self.last = self.input_of(u["model"])
            self.client([["recv", u]])
        elif a == "f":
            self.client([["effects"]])
        elif a == "a":
            self.client([["timer"]])
        elif a == "d":
            f = self.frames.pop(0)
            self.arrived.append((f["data"][0]["uid"], f["data"][0]["n"]))
            self.loop.create_task(self.layout.deliver(f))
            self.loop.drain()
        elif a == "c":
            self.gates.pop(0).set_result(None)
            self.loop.drain()
        elif a == "t":
            self.used["t"] += 1
            self.set_tick(self.used["t"])
            self.loop.drain()
        elif a == "s":
            self.used["s"] += 1
            self.set_value(f"server{self.used['s']}")
            self.loop.drain()

    @staticmethod
    def input_of(m):
        if isinstance(m, dict):
            if (m.get("attributes") or {}).get("id") == "i":
                return m
            for c in m.get("children", []):
                r = Typing.input_of(c)
                if r:
                    return r
        return None

    def finish(self):
        """Exchange everything that is left; then the server's value is displayed, if it was computed from the user's text."""
        for _ in range(60):
            todo = [a for a in self.enabled() if a in "dcufa"]
            if not todo or self.failures:
                break
            self.do(todo[0])
        else:
            self.failures.append("messages are exchanged without end")
        if self.failures:
            return
        if self.delivered_known >= self.typed and self.text != self.last["attributes"]["value"]:
            self.failures.append(f"{self.text!r} is displayed while the server's value is {self.last['attributes']['value']!r}")


class Form:
    """Several inputs of one layout: their elements are added, removed and moved while the user types into them."""
    PROGRAMS = {
        # name: (how inputs are put together, values of the server, changes of the server)
        "components": ("component", str.upper, "moves"),
        "elements": ("element", str.upper, "moves"),
        "wrapped elements": ("wrapped", str.upper, "moves"),
        "numbers": ("component", len, "none"),
        "fractions": ("element", lambda v: len(v) / 4, "none"),
        "uncontrolled": ("component", None, "moves"),
        "choice": ("choice", None, "options"),
        "chosen": ("choice", str.upper, "options"),
        "chosen without keys": ("choice", str.upper, "options"),
    }
    MOVES = {"rotate": [["a", "b"], ["b", "a"]], "first": [["a", "b"], ["c", "a", "b"]], "remove": [["a", "b"], ["b"]], "replace": [["a"], ["b"]],
             "last": [["a"], ["a", "b"], ["b"]], "none": [["a"]],
             "later": [[], ["A", "B", "AB"]], "fewer": [["B", "A", "AB"], ["B", "A"], ["A", "B"]], "other": [["", "A"], ["X", "A", "B"], ["X", "A", "AB"]]}

    def __init__(self, case):
        from reactpy import component, config, event, html, use_state
        from reactpy.core.layout import Layout
        from mc.loop import MCLoop

        self.program, self.moves, self.mode, self.depth, self.limits, options = case
        config.REACTPY_ASYNC_RENDERING.current = self.mode == "async"
        config.REACTPY_DEBUG.current = False
        kind, fn, _ = self.PROGRAMS[self.program]
        self.kind, self.fn = kind, fn
        self.own = {}
        self.lists = self.MOVES[self.moves]
        self.at = 0
        self.typed, self.started, self.shown, self.delivered, self.last = {}, {}, {}, {}, {}
        self.outbox, self.frames, self.failures, self.fed, self.used = [], [], [], 0, {"k": 0, "s": 0}
        self.values = {}
        me = self
        self.loop = MCLoop()

        def handler(x, set_value):
            def change(e):
                me.started[x] = max(me.started.get(x, 0), e["n"])
                if fn is not None:
                    set_value(fn(e["target"]["value"]))
            return event(change, **options)

        def attrs(x, value, set_value, **more):
            out = {"id": x, "data-k": str(me.started.get(x, 0)), "onChange": handler(x, set_value), **more}
            if fn is not None:
                out["value"] = value
            return out

        start = fn("") if fn is not None else ""

        @component
        def Item(x):
            value, set_value = use_state(start)
            me.values[x] = set_value
            return html.p(html.input(attrs(x, value, set_value)))

        @component
        def Root():
            items, set_items = use_state(me.lists[0])
            values, set_values = use_state({})
            me.set_items = set_items

            def setter(x):
                return lambda v: set_values(lambda old: {**old, x: v})

            def keyed(o):
                return {} if "without" in me.program else {"key": o}
            if kind == "component":
                kids = [Item(x, key=x) for x in items]
            elif kind == "choice":
                return html.select(attrs("i", values.get("i", "B"), setter("i")), *[html.option({"value": o, **keyed(o)}, o) for o in items])
            else:
                for x in items:
                    me.values[x] = setter(x)
                kids = [html.input(attrs(x, values.get(x, start), setter(x), key=x)) if kind == "element" else html.p({"key": x}, html.input(attrs(x, values.get(x, start), setter(x)))) for x in items]
            return html.div(*kids)

        self.loop.__enter__()
        self.layout = Layout(Root())
        self.task = self.loop.create_task(self.run())
        self.loop.drain()
        self.b = js.browser(BUNDLE)
        self.client([["start", {}], ["open"]], effects=True)
        self.do("u")
        self.do("f")

    run = Typing.run
    close = Typing.close

    def inputs(self, m, out):
        if isinstance(m, dict):
            a = m.get("attributes") or m.get("attrs") or {}
            if "id" in a:
                out[a["id"]] = m
            for c in m.get("children", []):
                self.inputs(c, out)
        return out

    def client(self, ops, effects=False, typing=None):
        r = self.b.run(ops, effects=effects)
        if r["errors"]:
            self.failures.append(r["errors"][0][:300])
        new = [f for s in r["sent"] for f in s][self.fed:]
        self.fed += len(new)
        self.frames += [json.loads(f) for f in new]
        self.r = r
        now = {}
        for n in r["view"]:
            self.inputs(n, now)
        now = {x: n["value"] for x, n in now.items()}
        before, self.shown = self.shown, now
        for x, text in now.items():
            old = before.get(x)
            if x == typing:
                self.own[x] = text
            elif old is None or old == text or (self.kind == "choice" and ("without" in self.program or old not in self.displayed_options())):
                continue  # options without keys are told apart by their position; a removed option is chosen no more
            elif self.typed.get(x) and (self.delivered.get(x, 0) < self.typed[x] or self.fn is None):
                self.failures.append(f"{old!r} in {x} became {text!r}, while the server knew {self.delivered.get(x, 0)} of {self.typed[x]} inputs")
        for x in set(before) - set(now):
            self.typed[x] = 0  # its element is gone
            self.own.pop(x, None)

    def enabled(self):
        out = []
        if self.frames:
            out.append("d")
        if self.used["s"] < len(self.lists) - 1:
            out.append("s")
        if self.outbox:
            out.append("u")
        if self.r["pending"]:
            out.append("f")
        if self.r["timers"]:
            out.append("a")
        if self.used["k"] < self.limits:
            for x in sorted(self.shown):
                if self.kind == "choice":
                    out += ["k" + x + o for o in self.displayed_options() if o != self.shown[x]]
                else:
                    out.append("k" + x)
        return out

    def displayed_options(self):
        return [c["attrs"]["value"] for c in (self.r["view"][0] if self.r["view"] else {}).get("children", [])]

    def do(self, a):
        if a[0] == "k":
            x = a[1]
            self.used["k"] += 1
            n = self.typed[x] = self.typed.get(x, 0) + 1
            if self.kind == "choice":
                self.client([["event", x, "change", {"n": n}, {"value": a[2:]}]], typing=x)
            else:
                self.client([["event", x, "input", {"n": n}, {"value": self.shown[x] + "mnop"[n - 1]}]], typing=x)
        elif a == "u":
            u = self.outbox.pop(0)
            models = self.inputs(u["model"], {})
            if self.kind != "choice" or models:
                for x, m in models.items():
                    self.delivered[x] = int(m["attributes"]["data-k"])
                    self.last[x] = m
            self.client([["recv", u]])
        elif a == "f":
            self.client([["effects"]])
        elif a == "a":
            self.client([["timer"]])
        elif a == "d":
            f = self.frames.pop(0)
            self.loop.create_task(self.layout.deliver(f))
            self.loop.drain()
        elif a == "s":
            self.used["s"] += 1
            self.at += 1
            self.set_items(self.lists[self.at])
            self.loop.drain()

    def finish(self):
        for _ in range(60):
            todo = [a for a in self.enabled() if a in list("dufa")]
            if not todo or self.failures:
                break
            self.do(todo[0])
        else:
            self.failures.append("messages are exchanged without end")
        if self.failures:
            return
        if self.kind != "choice" and sorted(self.shown) != sorted(self.lists[self.at]):
            self.failures.append(f"the inputs {sorted(self.shown)} are displayed instead of {sorted(self.lists[self.at])}")
        for x, text in self.shown.items():
            want = self.last[x]["attributes"].get("value")
            if want is None:
                if self.kind != "choice" and text != self.own.get(x, ""):
                    self.failures.append(f"{x} displays {text!r}, the user entered {self.own.get(x)!r}")
                continue
            want = str(int(want) if isinstance(want, float) and want == int(want) else want)  # as JavaScript prints it
            if self.kind == "choice" and want not in self.lists[self.at]:
                continue
            if self.delivered.get(x, 0) >= self.typed.get(x, 0) and text != want:
                self.failures.append(f"{x} displays {text!r} while the server's value is {want!r}")

    def end(self):
        return str(self.shown), str(self.started)


SERVER = "dcts"
WORLDS = {**{p: Typing for p in Typing.PROGRAMS}, **{p: Form for p in Form.PROGRAMS}}


def typing_run(case, choices):
    """One execution: take `choices`, then always the first possibility; returns (word, alternatives per step, failures)."""
    w = WORLDS[case[0]](case)
    word, alts, n = [], [], 0
    try:
        before = None
        while len(word) < w.depth and not w.failures:
            en = w.enabled()
            if before is not None and word and word[-1] not in SERVER:
                # a server step that was possible before the client's last step, which cannot influence it, has been explored there
                en = [a for a in en if not (a in SERVER and a in before)]
            if not en:
                break
            i = choices[len(word)] if len(word) < len(choices) else 0
            alts.append(len(en))
            before = w.enabled()
            a = en[i]
            w.do(a)
            word.append(a)
        if not w.failures:
            w.finish()
        return word, alts, [f"{' '.join(map(str, case[:2]))}: {' '.join(word)}: {f}" for f in w.failures[:1]], w.end()
    finally:
        w.close()


def judge_typing(case):
    *base, prefix = case
    base = tuple(base)
    res = Result(transitions=0)
    res.runs = 0
    states = set()
    res.states = states
    stack = [list(prefix)]
    while stack:
        ch = stack.pop()
        word, alts, failures, end = typing_run(base, ch)
        res.runs += 1
        res.transitions += len(word)
        for i in range(len(word)):
            states.add(hash((base[0], base[1], tuple(word[:i + 1]))))
        res.outcome = hash((res.outcome, end))
        if failures:
            res.failures += failures
            return res
        full = ch + [0] * (len(alts) - len(ch))
        for i in range(len(ch), len(alts)):
            for j in range(1, alts[i]):
                stack.append(full[:i] + [j])
        if len(alts) < len(prefix):
            break
    return res


def c15(q):
    def cases():
        for prog in Typing.PROGRAMS:
            for mode in ("async", "serial") if prog in ("upper", "keys", "slow keyup") else ("async",):
                depth = (8 if q else 10)
                lims = [{"k": 2, "K": 1, "t": 1, "s": 1}, {"k": 3, "K": 1, "t": 1, "s": 0, "ready": 1}]
                if "slow" in prog or "waits" in prog:
                    lims[1] = {"k": 2, "K": 0, "t": 1, "s": 0, "ready": 1}
                elif prog == "rejects":
                    lims[1] = {"k": 3, "K": 0, "t": 1, "s": 1, "ready": 1}
                for lim in lims:
                    yield from split((prog, mode, depth + ("slow" in prog and "ready" in lim) * 2, lim))

        for prog, (_, fn, moves) in Form.PROGRAMS.items():
            for move in {"moves": ("rotate", "first", "remove", "replace", "last"), "none": ("none",), "options": ("later", "fewer", "other")}[moves]:
                for opts in ({}, {"debounce": 50}, {"throttle": 50}) if fn is str.upper and moves == "moves" else ({},):
                    for mode in ("async", "serial") if not opts else ("async",):
                        yield from split((prog, move, mode, 7 if q else 9, 2 if q else 3, opts))

    def split(base):
        # over processes, by the first two choices
        _, alts, _, _ = typing_run(base, [])
        for i in range(alts[0]):
            _, al, _, _ = typing_run(base, [i])
            for j in range(al[1] if len(al) > 1 else 1):
                yield (*base, (i, j))

    cs = list(cases())
    js.drop()
    return ([("typing", cs, judge_typing)],
            "every interleaving of up to 8 (thorough 10) steps out of up to 3 keystrokes, a key without text, delivery of events and updates, timers, effects, unfinished handlers and 2 independent changes by the server, followed by the exchange of all messages; the same for forms of up to 3 inputs that are moved, added and removed, for numbers, and for drop-down lists whose options change",
            ["each side of the connection runs until it has nothing to do before the next message arrives",
             "convergence is required if the server rendered after a handler received the last keystroke"])


# ---------------------------------------------------------------- C31
def judge_graphs(case):
    family, part, parts, big = case
    r = js.browser(BUNDLE).ask({"plain": "convert", "args": [family, part, parts, big]})
    res = Result([f"{family}: {f}" for f in r["failures"]], transitions=r["n"], states=[hash(case)])
    res.runs = r["n"]
    return res


def c31(q):
    parts = 64
    fams = {"shapes": parts, "names": 16, "controls": 16, "forms": 8, "selections": 8, "hostile": 12}
    return ([(f, lambda f=f, n=n: ((f, i, n, not q) for i in range(n)), judge_graphs) for f, n in fams.items()],
            "every graph of three objects with two properties (cycles, shared, unreadable, arrays, array-likes) for 3 (thorough 6) depths; every name, value and kind of property at events, elements, forms and files; pairs of control properties; forms of two controls; selections; 45 hostile objects at 8 places and 12 depths",
            ["properties named in the documented ignore list of the serializer (`view`, `length`, `__*`, upper case, null, functions, navigation of nodes) are left out"])


def main():
    global BUNDLE, REACT_BUNDLE
    prop = sys.argv[1]
    chk = Check(prop)
    q = tier() == "quick"
    logging.disable(logging.CRITICAL)
    base = tempfile.mkdtemp(prefix="verif-client-")
    try:
        BUNDLE = js.bundle(base)
        REACT_BUNDLE = js.with_react(BUNDLE)
        groups, bound, assume = {"C15": c15, "C16": c16, "C17": c17, "C18": c18, "C31": c31}[prop](q)
        total, per = space.run(groups, time.time() + float(os.environ.get("VERIF_BUDGET", 400 if q else 800)))
        space.finish(chk, groups, total, per, rule="one execution of the client's real sources in a virtual browser per case", bound=bound,
                     assumptions=list(assume) + ["Preact, json-pointer and the document are replaced by small implementations of what the client uses (js/)"])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    chk.done()


if __name__ == "__main__":
    main()
