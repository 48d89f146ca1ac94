"""Exhaustive histories on the real layout: C03 C09 C10 C28 C29 (see DESIGN.md)."""
from __future__ import annotations

import asyncio
import gc
import itertools
import logging
import os
import re
import sys
import time
import types

from reactpy import component, config, html
from reactpy.core.hooks import use_async_effect, use_callback, use_debug_value, use_effect, use_memo, use_reducer, use_ref, use_state
from reactpy.core.layout import Layout
from reactpy.core.vdom import Vdom

from checks.c_layout import report_violations
from checks.effects_h import Monitor
from checks.layout_h import LayoutHarness
from mc import explore, space
from mc.app import App, Client, Inst, norm
from mc.loop import MCLoop
from mc.report import Check, tier
from mc.space import Result, words


def configure(mode, debug=False):
    config.REACTPY_ASYNC_RENDERING.current = mode == "async"
    config.REACTPY_DEBUG.current = debug
    config.REACTPY_MAX_QUEUE_SIZE.current = 1000


class Session:
    """One layout and its client on a controlled loop, always run until nothing is left to do."""

    def __init__(self, root):
        self.loop = MCLoop()
        self.root = root

    def __enter__(self):
        self.loop.__enter__()
        self.client = Client()
        self.layout = Layout(self.root)
        self.task = self.loop.create_task(self._run())
        self.loop.drain()
        return self

    async def _run(self):
        async with self.layout:
            while True:
                self.client.apply(await self.layout.render())

    def settle(self):
        self.loop.drain()
        return self.client.view

    def __exit__(self, *a):
        self.loop.abandon()
        self.loop.__exit__(*a)


# ---------------------------------------------------------------- C03
# items of a view: (kind, key); kinds A B P are components, D an element holding items, e a leaf, x text, n nothing
C03_ITEMS = [("A", None), ("B", None), ("A", "k"), ("B", "k"), ("A", "j"), ("P", "k"), ("P", None), ("D", "k", (("A", None),)),
             ("D", None, (("A", "k"),)), ("D", None, (("A", None), ("B", None))), ("e", None), ("x", None), ("n", None)]
INNER = {"A": (), "B": (), "P": (("A", None), ("B", "q"))}


def slots(items):
    """[(slot key, item)] of a list of items, or None when two share a key."""
    out, seen = [], set()
    for i, it in enumerate(items):
        if it[0] == "n":
            continue
        k = it[1] if it[1] is not None else i
        if k in seen:
            return None
        seen.add(k)
        out.append((k, it))
    return out


class Ref03:
    """Which instance is displayed where: trees of (kind, uid or None, {slot: subtree})."""

    def __init__(self):
        self.state = {}

    def step(self, old, items, fresh):
        new = {}
        for k, it in slots(items):
            was = old.get(k)
            kind = it[0]
            if kind in "ABP":
                if was and was[0] == kind:
                    uid, kids = was[1], was[2]
                else:
                    uid, kids = fresh(kind), {}
                new[k] = (kind, uid, self.step(kids, INNER[kind], fresh))
            elif kind == "D":
                kids = was[2] if was and was[0] in "De" else {}
                new[k] = ("D", None, self.step(kids, it[2], fresh))
            elif kind == "e":
                new[k] = ("e", None, {})
            else:
                new[k] = ("x", None, {})
        return new


def judge_c03(case):
    mode, history, bumps = case
    configure(mode)
    setters, log = {}, []
    uids = itertools.count(1)

    def make(kind):
        def body():
            uid, _ = use_state(lambda: next(uids))
            s, setters[uid] = use_state(0)
            log.append(uid)
            return Vdom("p")({"id": f"{kind}:{uid}:{s}"}, [real(i) for i in INNER[kind]])
        body.__name__ = kind
        return component(body)

    comps = {k: make(k) for k in "ABP"}

    def real(it):
        kind, key = it[0], it[1]
        if kind in "ABP":
            return comps[kind](key=key)
        if kind == "D":
            return Vdom("div")({"key": key} if key is not None else {}, [real(i) for i in it[2]])
        return {"e": Vdom("hr")({"key": key} if key is not None else {}), "x": "text", "n": None}[kind]

    box = {}

    @component
    def Root():
        s, box["set"] = use_state(0)
        return html.div([real(i) for i in history[s]])

    def flat(tree):
        for k, (kind, uid, kids) in tree.items():
            if uid is not None:
                yield kind, uid
            yield from flat(kids)

    def shown(node):
        out = []

        def walk(n):
            if isinstance(n, dict):
                i = (n.get("attributes") or {}).get("id")
                if i:
                    out.append(i)
                for c in n.get("children") or []:
                    walk(c)
        walk(node)
        return out

    failures, states, n = [], [], 0
    ref, tree, marks, dead = Ref03(), {}, {}, set()
    with Session(Root()) as ses:
        for s, items in enumerate(history):
            n += 1
            if s:
                box["set"](s)
            view = ses.settle()
            got = shown(view)
            used = set(marks)
            it = iter(got)
            # uids of fresh instances are whatever the implementation shows, but they must be unused ones

            def fresh(kind):
                return ("new", next(counter))
            counter = itertools.count()
            tree = ref.step(tree, items, fresh)
            want = list(flat(tree))
            if len(want) != len(got):
                failures.append(f"after view {s}: displayed components {got}, expected {want}")
                break
            rename = {}
            for (kind, uid), text in zip(want, got):
                gk, gu, gs = text.split(":")
                gu, gs = int(gu), int(gs)
                if isinstance(uid, tuple):
                    if gu in used or gu in rename.values() or gs != 0:
                        failures.append(f"after view {s}: a new {kind} shows the state of another component: {text}")
                    rename[uid] = gu
                elif gu != uid or gs != marks[uid]:
                    failures.append(f"after view {s}: {kind} should still be instance {uid} with state {marks[uid]}, shown is {text}")
                if gk != kind:
                    failures.append(f"after view {s}: {text} is displayed in place of a {kind}")
            if failures:
                break

            def apply(t):
                return {k: (kind, rename.get(u, u), apply(kids)) for k, (kind, u, kids) in t.items()}
            tree = apply(tree)
            live = [u for _, u in flat(tree)]
            for u in live:
                marks.setdefault(u, 0)
            states.append(hash((mode, items, tuple(got))))
            # give every live component its own state; nothing else changes
            if bumps:
                for u in live:
                    n += 1
                    marks[u] = 10 * u + s + 1
                    setters[u](marks[u])
                    now = shown(ses.settle())
                    want_ids = [f"{k}:{x}:{marks[x]}" for k, x in flat(tree)]
                    if now != want_ids:
                        failures.append(f"setting the state of {u}: shown {now}, expected {want_ids}")
                        break
                # setters of removed components do nothing
                log.clear()
                for u in set(marks) - set(live):
                    setters[u](-5)
                now = shown(ses.settle())
                if now != [f"{k}:{x}:{marks[x]}" for k, x in flat(tree)] or log:
                    failures.append(f"setting the state of removed components changed the view to {now}, rendered {log}")
            if failures:
                break
        if ses.task.done():
            failures.append(f"the session ended: {ses.task}")
    return Result(failures, states, n, hash(str(got)))


def c03_groups(q):
    def lists(n, items):
        return [w for w in words(items, 0, n) if slots(w) is not None]
    two = lists(2, C03_ITEMS)
    small = lists(2, [C03_ITEMS[i] for i in (0, 1, 2, 3, 7, 8, 12)])
    three = [w for w in lists(3, [C03_ITEMS[i] for i in (0, 1, 2, 4, 5, 7, 12)])]
    perms = [tuple(p) for n in (2, 3, 4) for p in itertools.permutations([("A", "a"), ("A", "b"), ("B", "c"), ("P", "d")], n)]
    tiny = [w for w in small if len(w) < 2] + small[-6:]

    # keys that are false or equal to others as text
    odd = [(k, key) + ((("A", "q"),),) * (k == "D") for key in (0, "", "0", 7, "k") for k in "AD"]
    odd = [w for w in lists(3 if not q else 2, odd + [("B", "")])]

    def modes(f):
        def g():
            for h in f():
                yield "async", h, True
                yield "serial", h, True
        return g
    return [
        ("pairs of two-item views", modes(lambda: itertools.product(two, repeat=2)), judge_c03),
        ("unusual keys", modes(lambda: itertools.product(odd, repeat=2)), judge_c03),
        ("keyed permutations", modes(lambda: itertools.product(perms, repeat=2)), judge_c03),
        ("triples", modes(lambda: itertools.product(small if not q else tiny, repeat=3)), judge_c03),
    ] + ([] if q else [("pairs of three-item views", lambda: (("async", (a, b), True) for a in three for b in three), judge_c03)])


# ---------------------------------------------------------------- C09
class Obj:
    def __repr__(self):
        return "obj"


class Odd:
    """Equality that is not a boolean."""

    def __eq__(self, other):
        return self.__class__

    def __hash__(self):
        return 1


class OddArray(Odd):
    def __eq__(self, other):
        class V:
            def __bool__(s):
                raise ValueError("ambiguous")
        return V()
    __hash__ = None


O1, O2, ARR = Obj(), Obj(), OddArray()
SHARED = [0]


def dep_values():
    """Equal values are rebuilt, so that identity cannot be mistaken for equality."""
    return {
        "0": [0], "1": [1], "s0": ["".join(["0"])], "f": [0.0], "t": [True], "00": [0, 0], "01": [0, 1], "empty": [],
        "o1": [O1], "o2": [O2], "none": [None], "tup": [tuple([1, 2])], "arr": [ARR], "b": [bytes([65])], "big": [10 ** 20],
    }


def same_dep(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (Obj, OddArray)):
        return a is b
    return a == b


def same_deps(a, b):
    return len(a) == len(b) and all(same_dep(x, y) for x, y in zip(a, b))


def judge_c09(case):
    """case: (mode, history); each element (dependency name or None for always, does the computation raise)"""
    mode, history = case
    configure(mode)
    SHARED[0] = 0
    box, seen = {}, []
    calls = []

    @component
    def Root():
        step, box["set"] = use_state(0)
        dep, raises = history[step]
        rec = {"step": step}
        seen.append(rec)
        deps = None if dep is None else SHARED if dep == "mut" else dep_values()[dep]
        ref = use_ref(("initial", step))
        rec["ref"] = ref
        value, dispatch = use_reducer(lambda s, a: s + [a], [])
        box["dispatch"] = dispatch
        rec["dispatch"], rec["reduced"] = dispatch, value
        rec["setter"] = box["set"]

        def cb():
            return step
        rec["cb"] = use_callback(cb, deps)
        rec["own_cb"] = cb

        def compute():
            calls.append(step)
            if raises:
                raise ValueError("computation")
            return ("value", step)
        rec["memo"] = use_memo(compute, deps)

        @use_memo(dependencies=deps)
        def memo2():
            return ("second", step)
        rec["memo2"] = memo2
        rec["infer"] = use_memo(lambda: (dep, step) if raises else (dep,))
        return html.p({"id": str(step)})

    failures, states = [], []
    with Session(Root()) as ses:
        last, last_cb, last2 = None, None, None   # (deps, value) of the last successful computation
        expect_reduced = []
        for step, (dep, raises) in enumerate(history):
            if dep == "mut":
                SHARED[0] = step // 2
            deps = None if dep is None else ([step // 2] if dep == "mut" else dep_values()[dep])
            if step:
                calls.clear()
                seen.clear()
                box["set"](step)
            ses.settle()
            if not seen or seen[-1]["step"] != step:
                failures.append(f"step {step} was not rendered")
                break
            rec = seen[-1]
            states.append(hash((step, dep, raises, repr(last))))
            if len(seen) != 1:
                failures.append(f"step {step} was rendered {len(seen)} times")
            # callback
            if last_cb is None or deps is None or not same_deps(last_cb[0], deps):
                if rec["cb"] is not rec["own_cb"]:
                    failures.append(f"step {step}: use_callback kept {rec['cb']()} although the dependencies changed")
                last_cb = (deps if deps is not None else Obj(), rec["cb"]) if deps is not None else None
            elif rec["cb"] is not last_cb[1]:
                failures.append(f"step {step}: use_callback changed identity although the dependencies are unchanged")
            # memo
            need = last is None or deps is None or not same_deps(last[0], deps)
            if need:
                if calls != [step]:
                    failures.append(f"step {step}: the computation ran {len(calls)} times, expected once")
                if raises:
                    if "memo" in rec:
                        failures.append(f"step {step}: use_memo returned {rec['memo']} although the computation raised")
                    if deps is None:
                        pass
                else:
                    if rec.get("memo") != ("value", step):
                        failures.append(f"step {step}: use_memo returned {rec.get('memo')}")
                    last = (deps, ("value", step)) if deps is not None else None
            else:
                if calls:
                    failures.append(f"step {step}: recomputed although the dependencies are unchanged")
                if rec.get("memo") != last[1]:
                    failures.append(f"step {step}: use_memo returned {rec.get('memo')}, expected {last[1]}")
            if "memo" in rec:
                if last2 is None or deps is None or not same_deps(last2[0], deps):
                    want2 = ("second", step)
                    last2 = (deps, want2) if deps is not None else None
                else:
                    want2 = last2[1]
                if rec["memo2"] != want2:
                    failures.append(f"step {step}: the decorated memo is {rec['memo2']}, expected {want2}")
                if rec["infer"][0] != dep or (raises and rec["infer"][1] != step):
                    failures.append(f"step {step}: the memo with inferred dependencies is {rec['infer']}")
            # identities
            if step == 0:
                first = rec
            for k in ("ref", "dispatch", "setter"):
                if rec[k] is not first[k]:
                    failures.append(f"step {step}: the {k} changed its identity")
            if rec["ref"].current != ("initial", 0):
                failures.append(f"step {step}: the ref was initialised again: {rec['ref'].current}")
            # reducer
            if rec["reduced"] != expect_reduced:
                failures.append(f"step {step}: reduced state {rec['reduced']}, expected {expect_reduced}")
            seen.clear()
            for a in (f"a{step}", f"b{step}"):
                box["dispatch"](a)
                expect_reduced.append(a)
            ses.settle()
            if len(seen) != 1:
                failures.append(f"step {step}: dispatching two actions rendered {len(seen)} times")
            elif seen[-1]["reduced"] != expect_reduced:
                failures.append(f"step {step}: actions reduced to {seen[-1]['reduced']}, expected {expect_reduced}")
            if need and not raises and deps is None and seen:
                pass
            expect_reduced = list(expect_reduced)
            # rendering again for the same step: the same rules
            if seen and deps is not None and "memo" in seen[-1] and last is not None:
                if seen[-1]["memo"] != last[1]:
                    failures.append(f"step {step}: after dispatching, use_memo returned {seen[-1]['memo']}, expected {last[1]}")
                if seen[-1]["cb"] is not last_cb[1]:
                    failures.append(f"step {step}: after dispatching, use_callback changed its identity")
            if failures:
                break
    return Result(failures, states, len(history) * 3, hash(str([(d, r) for d, r in history])))


def plain_function():
    return "plain", len(PLAIN_CALLS), PLAIN_CALLS.append(1)


PLAIN_CALLS = []


class CallMe:
    def __call__(self):
        return "object", len(PLAIN_CALLS), PLAIN_CALLS.append(1)


class LogCount(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.got = []

    def emit(self, record):
        self.got.append(record.getMessage())


def judge_c09_infer(case):
    """Dependencies inferred from the variables a function refers to.  case: (mode, debug, history of (a, b))"""
    mode, debug, history = case
    configure(mode, debug)
    PLAIN_CALLS.clear()
    box, seen, ran = {}, [], []
    lg = logging.getLogger("reactpy.core.hooks")
    disabled, level = logging.root.manager.disable, lg.level
    count = LogCount()
    logging.disable(logging.NOTSET)
    lg.setLevel(logging.DEBUG)
    lg.propagate = False
    lg.addHandler(count)

    @component
    def Root():
        step, box["set"] = use_state(0)
        a, b = history[step]
        rec = {"step": step, "calls": []}
        seen.append(rec)
        calls = box["calls"] = rec["calls"]

        def only_a():
            box["calls"].append("a")
            return a

        rec["a"] = use_memo(only_a)
        rec["ab"] = use_memo(lambda: (box["calls"].append("ab"), a, b)[1:])
        rec["none"] = use_memo(lambda: (PLAIN_CALLS.append(1), len(PLAIN_CALLS)))
        rec["plain"] = use_memo(plain_function)
        obj = CallMe()
        rec["obj"] = use_memo(obj)
        rec["cb_a"] = use_callback(lambda: a)
        rec["cb_plain"] = use_callback(plain_function)
        rec["cb_obj"], rec["own_obj"] = use_callback(obj), obj
        rec["cb_none"] = use_callback(lambda: PLAIN_CALLS)

        @use_effect
        def effect_a():
            ran.append(("a", a))

        @use_effect
        def effect_plain():
            PLAIN_CALLS.append("effect")

        @use_async_effect
        async def effect_b():
            ran.append(("b", b))

        @use_async_effect
        async def effect_async_plain():
            PLAIN_CALLS.append("async effect")

        rec["dispatch"] = use_reducer(lambda s, x: (s, x, step), 0)[1]
        rec["dispatch2"] = use_reducer((lambda s, x: (s, x)) if step % 2 else max, 0)[1]
        use_debug_value(a)
        use_debug_value(lambda: f"value of b: {b}", [b])
        return html.p({"id": str(step)})

    failures, states = [], []
    try:
        with Session(Root()) as ses:
            prev = first = None
            for step, (a, b) in enumerate(history):
                if step:
                    ran.clear()
                    count.got.clear()
                    box["set"](step)
                ses.settle()
                if len(seen) != 1:
                    failures.append(f"step {step} was rendered {len(seen)} times")
                    break
                rec = seen.pop()
                first = first or rec
                was = prev or (None, None)
                new_a, new_b = not same_dep(was[0], a) or prev is None, not same_dep(was[1], b) or prev is None
                prev = (a, b)
                states.append(hash((history[:step + 1], mode)))
                want = ["a"] * new_a + ["ab"] * (new_a or new_b)
                if rec["calls"] != want:
                    failures.append(f"step {step}: computed {rec['calls']}, expected {want}")
                if (rec["a"], rec["ab"]) != (a, (a, b)):
                    failures.append(f"step {step}: {(a, b)} were memoized as {rec['a'], rec['ab']}")
                for k in ("none", "plain", "cb_plain", "dispatch", "dispatch2", "cb_none"):
                    if rec[k] is not first[k]:
                        failures.append(f"step {step}: {k} does not depend on anything, but changed")
                if rec["cb_obj"] is not rec["own_obj"]:
                    failures.append(f"step {step}: the callback without dependencies is an earlier one")
                if rec["obj"] in box.setdefault("objs", []):
                    failures.append(f"step {step}: the memo without dependencies was not computed")
                box["objs"].append(rec["obj"])
                if rec["cb_a"]() != a:
                    failures.append(f"step {step}: the callback over {a} returns {rec['cb_a']()}")
                want = [("a", a)] * new_a + [("b", b)] * new_b
                if sorted(map(repr, ran)) != sorted(map(repr, want)):
                    failures.append(f"step {step}: effects ran for {ran}, expected {want}")
                for k in ("effect", "async effect"):
                    if PLAIN_CALLS.count(k) != 1:
                        failures.append(f"step {step}: the {k} over nothing ran {PLAIN_CALLS.count(k)} times")
                logged = [f"{a}"] * (prev is None or step == 0 or history[step - 1][0] != a)
                logged += [f"value of b: {b}"] * (step == 0 or history[step - 1][1] != b)
                got = [m for m in count.got if "value of b" in m or m.endswith(f" {a}")]
                if len(got) != len(logged if debug else []) or not all(m.endswith(x) for m, x in zip(got, logged)):
                    failures.append(f"step {step}: debug values {got} were logged, expected {logged if debug else []}")
                if failures:
                    break
    finally:
        logging.disable(disabled)
        lg.setLevel(level)
        lg.removeHandler(count)
        lg.propagate = True
    return Result(failures, states, len(history), hash((mode, history)))


def c09_groups(q):
    basic = [(d, r) for d in ("0", "1", "01") for r in (False, True)] + [(None, False), ("empty", False)]
    values = [(d, False) for d in dep_values()] + [("mut", False)]

    def no_mix(h):
        return True

    def legal(w):
        # a hook that is given dependencies in some renderings and none in others is not covered
        ds = [d for d, _ in w]
        return not (None in ds and any(d is not None for d in ds))

    def both(ws):
        for w in ws:
            yield "async", w
            yield "serial", w
    return [
        ("values", lambda: both(itertools.product(values, repeat=2)), judge_c09),
        ("values, three renderings", lambda: (("async", w) for w in itertools.product(values, repeat=3)), judge_c09),
        ("inferred dependencies", lambda: ((m, d, w) for w in words(list(itertools.product((0, 1), repeat=2)), 1, 4 if q else 6)
                                           for m in ("async", "serial") for d in (False, True)), judge_c09_infer),
        ("inferred dependencies, values", lambda: ((m, False, tuple((v[0], 5) for v in w)) for m in ("async", "serial") for w in
                                                   itertools.product([x for x in dep_values().values() if len(x) == 1 and x[0] is not ARR], repeat=2)),
         judge_c09_infer),
        ("raising computations", lambda: both(w for w in words(basic, 1, 5 if q else 7) if legal(w)), judge_c09),
    ]


# ---------------------------------------------------------------- C08: equality of assigned values
class Same:
    """Distinct but equal objects."""

    def __init__(self, v):
        self.v = v

    def __eq__(self, other):
        return isinstance(other, Same) and self.v == other.v

    __hash__ = None

    def __repr__(self):
        return f"Same({self.v})"


def state_values():
    return {"0": 0, "1": 1, "f": False, "t": True, "0.0": 0.0, "1.0": 1.0, "s0": "".join("0"), "": "", "b": bytes(1), "none": None,
            "()": (), "[]": [], "[1]": [1], "[1,2]": [1, 2], "(1,)": tuple([1]), "{}": {}, "d": {"a": 1}, "big": 10 ** 20, "same": Same(1),
            "same2": Same(2), "o1": O1, "o2": O2, "arr": ARR, "str": "x" * 3, "set": {1}, "c": 1j}


def judge_c08_values(case):
    """case: (mode, initial value, [(how, value) ...], whether everything is assigned at once)"""
    mode, initial, sets, at_once = case
    configure(mode)
    renders, box, failures = [], {}, []

    @component
    def Root():
        v, box["set"] = use_state(lambda: state_values()[initial])
        renders.append(v)
        return html.p(f"{type(v).__name__} {v!r}")

    def assign(how, value):
        v = state_values()[value]
        if how == "by function":
            def update(old):
                box["old"] = old
                return v
            box["set"](update)
        else:
            box["set"](v)
        return v

    with Session(Root()) as ses:
        cur, changed = renders.pop(), 0
        for i, (how, value) in enumerate(sets):
            box.pop("old", None)
            v = assign(how, value)
            if "old" in box and not (type(box["old"]) is type(cur) and (box["old"] is cur or repr(box["old"]) == repr(cur))):
                failures.append(f"the update function received {box['old']!r}, the state was {cur!r}")
            differs = not same_dep(cur, v)
            changed += differs
            if differs:
                cur = v
            if at_once and i < len(sets) - 1:
                continue
            ses.settle()
            shown = ses.client.view["children"][0]["children"][0]
            if shown != f"{type(cur).__name__} {cur!r}":
                failures.append(f"{shown} is displayed, the state is {cur!r}")
            if len(renders) != min(changed, 1):
                failures.append(f"{changed} changes to {cur!r} were followed by {len(renders)} renderings")
            renders.clear()
            changed = 0
    return Result(failures, [hash((mode, initial, sets[:i], at_once)) for i in range(len(sets) + 1)], len(sets), hash((initial, sets)))


def c08_groups(q):
    vals = list(state_values())
    hows = ("directly", "by function")
    few = ["0", "1", "f", "0.0", "s0", "none", "[1]", "(1,)", "same", "arr"]
    return [
        ("assigned values", lambda: ((m, a, ((how, b),), False) for m in ("async", "serial") for a in vals for b in vals for how in hows),
         judge_c08_values),
        ("sequences of assigned values", lambda: ((m, a, tuple(zip(h, w)), once) for m in ("async", "serial") for a in few
                                                  for w in words(few if not q else few[:6], 2, 2 if q else 3)
                                                  for h in itertools.product(hows, repeat=len(w)) for once in (False, True)),
         judge_c08_values),
    ]


# ---------------------------------------------------------------- C10 / C28 / C29: component programs
def run_word(prop, program, word, mode, judge, **kw):
    return explore.execute(LayoutHarness, dict(prop=prop, judge=judge, program=program, acts=[list(word)], mode=mode, settled=True, **kw),
                           [], None, True)


def judge_c10(case):
    mode, program, word = case
    r = run_word("C10", program, word, mode, ["view", "state"])
    return Result(r.failures, [hash((program, mode, tuple(r.trace[:i]))) for i, x in enumerate(r.trace) if x.startswith("!")], r.steps, r.outcome)


CTX = {"ctx_simple": ["R=0", "R=1", "R=3", "P=1", "P=2", "P=0", "C=1", "C=2"],
       "ctx_shadow": ["R=0", "R=1", "P=0", "P=1", "P=2", "P=3", "M=1", "C=1"],
       "ctx_two": ["R=0", "R=1", "P=0", "P=1", "M=0", "M=1", "C=1", "C#c=2"],
       "ctx_order": ["R=0", "R=1", "R=2", "R=3", "C=1", "D=1", "E=1"]}


def c10_jobs(q):
    out = []
    for m in ("async", "serial"):
        for c in ("auto", "gated"):
            for prog, acts in (("ctx_simple", [["R=1", "R=3", "R=2"], ["P=1", "P=2"], ["C=1"]]),
                               ("ctx_shadow", [["R=1", "R=2"], ["P=1", "P=3"], ["M=1"], ["C=1"]]),
                               ("ctx_two", [["R=1"], ["P=1", "P=2"], ["M=1", "M=2"], ["C=1"]]),
                               ("ctx_order", [["R=1", "R=2", "R=3"], ["C=1", "D=1"], ["E=1"]])):
                out.append((LayoutHarness, dict(prop="C10", judge=["view", "state"], program=prog, acts=acts, mode=m, consumer=c),
                            2 if q else 3))
    return out


C28 = {"parent_child": ["R=1", "R=2", "R=0", "C=1", "C+1"], "moves": ["R=0", "R=1", "R=2", "R=3", "A=1", "B=1", "B=2", "C=1"],
       "deep": ["R=1", "R=2", "R=0", "P=1", "P=2", "P=0", "C=1"], "kinds": ["R=0", "R=1", "R=2", "R=3", "R=4", "A=1", "B=1"],
       "clicks": ["R!onClick", "C!onClick", "C=1"], "route": ["R=0", "R=1", "R=3", "A!onClick", "B!onClick", "B=0"],
       "effects": ["R=1", "R=2", "R=0", "C=1", "C=2", "C=3"], "effect_sets": ["R=1", "R=2", "C=1", "C=2", "D=3"],
       "effect_raises": ["R=1", "R=2", "R=0", "C=1", "C=2"], "effect_moves": ["R=0", "R=1", "R=2", "R=3", "A=1", "B=1"],
       "effect_order": ["R=1", "R=2", "C=1", "D=1"], "async_mixed": ["R=1", "R=2", "R=0", "C=1", "C=2"],
       "fails": ["F=1", "F=0", "C=1", "C=2", "G=1", "R=1", "D=1"], "ctx_shadow": CTX["ctx_shadow"], "ctx_two": CTX["ctx_two"],
       "ctx_order": CTX["ctx_order"]}


def segments(trace):
    """[(action, events sorted)]; update paths are left out because they may differ."""
    out = [["start", []]]
    for x in trace:
        if x.startswith("!a0"):
            out.append([x, []])
        elif not x.startswith(("update", "render", "!")):
            out[-1][1].append(x)
    return [(a, sorted(v) if a else v) for a, v in out]


def judge_c28(case):
    program, word, debug = case
    rs = {}
    for mode in ("async", "serial"):
        rs[mode] = run_word("C28", program, word, mode, ["snap"], debug=debug)
        if rs[mode].failures:
            return Result(rs[mode].failures, (), rs[mode].steps)
    a, b = segments(rs["async"].trace), segments(rs["serial"].trace)
    failures = []
    for x, y in itertools.zip_longest(a, b):
        if x != y:
            failures.append(f"asynchronous rendering: {x}; serial rendering: {y}")
            break
    return Result(failures, [hash(str((program, s))) for s in a], rs["async"].steps + rs["serial"].steps, hash(str(a)))


# -- C29: the size of everything a layout holds does not grow when a history is repeated
STOP = (Monitor, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, MCLoop, App, Inst, Client, types.CodeType)


def held(layout, h):
    """Number of objects reachable from the layout (also by what the library's functions enclose) without entering code, classes or the harness."""
    import contextvars
    stop = STOP + (LayoutHarness, contextvars.Context, types.FrameType)
    seen, todo = set(), [layout]
    while todo:
        o = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, types.FunctionType) and str(o.__module__).startswith("reactpy"):
            seen.add(id(o))
            todo += [o.__closure__, o.__defaults__]
            continue
        if isinstance(o, (*stop, str, bytes, int, float)):
            continue
        seen.add(id(o))
        todo.extend(gc.get_referents(o))
    return len(seen)


class BoundedHarness(LayoutHarness):
    name = "bounded"

    def setup(self):
        super().setup()
        self.sizes = []
        self.fresh = itertools.count()
        word, times = self.params["word"], self.params["times"]
        acts = []
        for i in range(times):
            for a in word:
                acts.append((a, self.act_for(a)))
            acts.append(("measure", self.measure))
        from mc.explore import Actor
        self.actors.append(Actor("w", acts, when=lambda: self.ready_for(acts)))

    def ready_for(self, acts):
        if self.client.view is None or self.loop.has_ready() or self.loop.next_timer() is not None:
            return False
        # impossible actions are skipped (the same way in every repetition)
        w = self.actors[-1]
        while w.pos < len(acts) and acts[w.pos][0] != "measure" and not self.can(acts[w.pos][0]):
            w.pos += 1
        return w.pos < len(acts)

    def can(self, a):
        return a.startswith("?") or self.possible(a)

    def act_for(self, a):
        if not a.startswith("?"):
            return self.action(a)

        def unknown():
            self.loop.create_task(self.layout.deliver(
                {"target": f"nowhere{next(self.fresh)}", "data": [], "seq": 5}))
        return unknown

    def measure(self):
        tasks = sum(not t.done() for t in self.loop.tasks)
        self.sizes.append((held(self.layout, self), tasks))

    def finish(self):
        if self.session.done():
            self.fail(f"C29:the session ended: {self.session}")
        s = self.sizes
        half = s[:self.params["times"] // 2]
        if len(s) == self.params["times"] and any(min(x[i] for x in s[len(half):]) > max(x[i] for x in half) for i in (0, 1)):
            self.fail(f"C29:(objects held, tasks) after each repetition: {s}")


def judge_c29(case):
    mode, program, word, queue = case
    r = explore.execute(BoundedHarness, dict(prop="C29", judge=["none"], program=program, word=list(word), times=6, mode=mode, queue=queue),
                        [], None, True)
    return Result(r.failures, [hash(x) for x in (r.trace or [])], r.steps, r.outcome)


C29 = {"moves": (["R=1", "R=2", "R=3", "B=1", "C=1", "A=1"], ["R=0", "B=0", "C=0", "A=0"]),
       "kinds": (["R=1", "R=2", "R=3", "R=4", "A=1"], ["R=0", "A=0"]),
       "fails": (["F=1", "C=1", "G=1", "R=1"], ["F=0", "C=0", "G=0", "R=0"]),
       "effects": (["R=1", "R=2", "C=1", "C=2"], ["R=0", "C=0"]),
       "effect_raises": (["R=1", "R=2", "C=1"], ["R=0", "C=0"]),
       "async_mixed": (["R=1", "R=2", "C=1", "C=2"], ["R=0", "C=0"]),
       "clicks": (["R!onClick", "C!onClick", "?", "C=1"], ["R=0", "C=0"]),
       "growing": (["R+1", "C!onClick", "?", "C=1"], []),
       "ctx_order": (["R=1", "R=2", "R=3", "D=1"], ["R=0", "D=0"]),
       "slow": (["P=1", "P=0", "E=1", "R=1"], ["P=0", "E=0", "R=0"])}


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    q = tier() == "quick"
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800))
    rule = "case = one history of operations on the real layout, each settled before the next; "
    if prop == "C03":
        groups = c03_groups(q)
        rule += "state = (view, displayed instances and states), transition = rendering or state change"
        bound = "all histories of 2 views with at most 2 items (13-item alphabet), all pairs of keyed permutations, all triples of small views"
    elif prop == "C09":
        groups = c09_groups(q)
        rule += "state = (step, dependencies, last successful computation), transition = rendering"
        bound = "all histories of at most 3 renderings over 16 dependency lists and of at most 5 (thorough 7) over 8 (dependencies, raises) pairs"
    elif prop == "C10":
        jobs = c10_jobs(q)
        stotal, _ = explore.explore_many(jobs, deadline)
        chk.set(schedules_explored=stotal.executions, schedule_states=len(stotal.states),
                schedule_outcomes=len(stotal.outcomes), schedules_capped=stotal.capped)
        report_violations(chk, jobs, stotal)
        groups = [(p, lambda p=p, al=al: ((m, p, w) for w in words(al, 1, 4 if q else 5) for m in ("async", "serial")), judge_c10)
                  for p, al in CTX.items()]
        bound = "all histories of at most 4 (thorough 5) state changes per program; schedules with at most 2 (thorough 3) deviations"
    elif prop == "C28":
        groups = [(p, lambda p=p, al=al: ((p, w, False) for w in words(al, 1, (5 if len(al) < 7 else 4) if q else 6)), judge_c28)
                  for p, al in C28.items()]
        groups.append(("fails, debug", lambda: (("fails", w, True) for w in words(C28["fails"], 1, 3)), judge_c28))
        bound = "all histories of at most 4-5 (thorough 6) operations of each program's alphabet, run in both modes"
        rule += "state = events caused by one operation, transition = loop step"
    elif prop == "C29":
        groups = [(p, lambda p=p, al=al, back=back: ((m, p, tuple(w) + tuple(back), k) for w in words(al, 1, 4 if q else 5)
                                                     for m in ("async", "serial") for k in (1000,)), judge_c29)
                  for p, (al, back) in C29.items()]
        bound = "all words of at most 4 (thorough 5) operations followed by a reset, repeated 6 times; sizes after 2 and 6 repetitions compared"
        rule += "state = observable event, transition = loop step"
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per, rule, bound, ["asyncio runs ready callbacks in FIFO order"])
    chk.done()


if __name__ == "__main__":
    main()
