"""Component programs used by the layout harnesses."""
from checks.effects_h import async_effect, sync_effect
from mc.app import Spec

# R > C ; C removed when R's state is 2
parent_child = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}")),
}
# R > div(C), div(D): the in-progress render of R has already rendered C when it gets to D
cousins = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.el("b", h.comp("C", "c")), h.el("i", h.comp("D", "d")))),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}")),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}")),
}
# keyed children in an order given by R's state, with an extra leading sibling in some states
moves = {
    "R": Spec(0, lambda h, s: h.el("div", *[
        [h.comp("A", "a"), h.comp("B", "b")],
        [h.comp("B", "b"), h.comp("A", "a")],
        [h.el("hr", key="x"), h.comp("A", "a"), h.comp("B", "b")],
        [h.comp("B", "b")],
    ][s])),
    "A": Spec(0, lambda h, s: h.el("p", f"a{s}")),
    "B": Spec(0, lambda h, s: h.el("p", f"b{s}", h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: f"c{s}"),
}
# three levels; unkeyed element before the child of P shifts its index
deep = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("P", "p") if s != 2 else h.el("hr"))),
    "P": Spec(0, lambda h, s: h.el("div", h.el("hr", key="h") if s == 1 else None,
                                   h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}")),
}
# events for elements which move, disappear and return while slow renders are in progress
route = {
    "R": Spec(0, lambda h, s: h.el("div", [
        [h.comp("A", "a"), h.comp("B", "b"), h.comp("S", "s")],
        [h.comp("B", "b"), h.comp("A", "a")],
        [h.el("hr", key="x"), h.comp("A", "a"), h.comp("B", "b")],
        [h.comp("S", "s"), h.comp("B", "b")],
    ][s])),
    "A": Spec(0, lambda h, s: h.el("button", f"a{s}", id=f"A{h.inst.key}", onClick=h.on("onClick", lambda i: i.update(lambda x: x + 1)),
                                   onKeyDown=h.on("onKeyDown"))),
    "B": Spec(0, lambda h, s: h.el("p", h.el("button", f"b{s}", id=f"B{h.inst.key}", onClick=h.on("onClick", lambda i: i.update(lambda x: x + 1))),
                                   h.comp("S", "t") if s == 0 else None)),
    "S": Spec(0, lambda h, s: h.el("p", "s"), [async_effect("x", lambda s: [], shield=True)]),
}
# events change state
clicks = {
    "R": Spec(0, lambda h, s: h.el("div", h.el("button", f"r{s}", id="R", onClick=h.on("onClick", lambda i: i.update(lambda x: x + 1))),
                                   h.comp("C", "c") if s % 2 == 0 else h.comp("C", "d"))),
    "C": Spec(0, lambda h, s: h.el("button", f"c{s}", id=f"C{h.inst.key}", onClick=h.on("onClick", lambda i: i.update(lambda x: x + 10)))),
}
# slow handlers, with further events waiting behind them
busy = {
    "R": Spec(0, lambda h, s: h.el("div", h.el("button", f"r{s}", id="R", onClick=h.slow("onClick"), onKeyDown=h.on("onKeyDown", lambda i: i.update(lambda x: x + 1))),
                                   h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: h.el("button", f"c{s}", id="Cc", onClick=h.slow("onClick")), [sync_effect("e", lambda s: [s])]),
}
# a component switches between component, element, text and nothing at the same place
kinds = {
    "R": Spec(0, lambda h, s: h.el("div", [h.comp("A", "k"), h.comp("B", "k"), h.el("p", "e", key="k"), "text", None][s])),
    "A": Spec(0, lambda h, s: h.el("p", f"a{s}")),
    "B": Spec(0, lambda h, s: h.el("p", f"b{s}")),
}
# the same place, without keys, holds a component, an element with a component below it, text or nothing
kinds_fx = {
    "R": Spec(0, lambda h, s: h.el("div", [h.comp("A"), h.comp("B"), h.el("p", h.comp("A", "k")), "text", None, [h.comp("A"), h.comp("B")]][s])),
    "A": Spec(0, lambda h, s: h.el("p", f"a{s}"), [sync_effect("e", lambda s: [s]), sync_effect("o", lambda s: [])]),
    "B": Spec(0, lambda h, s: h.el("p", f"b{s}", h.comp("A") if s == 0 else "none"), [sync_effect("e", lambda s: [s])]),
}
# slow unmount: removing C waits for a shielded async effect
slow = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("P", "p"), h.comp("D", "d"))),
    "P": Spec(0, lambda h, s: h.el("div", h.comp("C", "c") if s != 1 else None, h.comp("E", "e"))),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}"), [async_effect("x", lambda s: [], shield=True)]),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}")),
    "E": Spec(0, lambda h, s: h.el("p", f"e{s}")),
}
# effects: with dependencies, without, once; a removable child
effects = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c") if s != 2 else None),
              [sync_effect("e", lambda s: [s])]),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}"),
              [sync_effect("always", lambda s: None), sync_effect("once", lambda s: []),
               sync_effect("half", lambda s: [s // 2])]),
}
# effects that change state (own, parent's) when run and when cleaned up
effect_sets = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c") if s < 2 else None, h.comp("D", "d"))),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}"),
              [sync_effect("up", lambda s: [s], sets=lambda app, i: app.inst("D") and app.inst("D").setter and app.inst("D").set(i.want + 5),
                           cleanup_sets=lambda app, i: app.inst("D") and app.inst("D").setter and app.inst("D").set(-1 - i.want))]),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}"), [sync_effect("e", lambda s: [s])]),
}
# effects and clean-ups that raise
effect_raises = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}"),
              [sync_effect("bad", lambda s: [s], raises=lambda s: s == 1),
               sync_effect("badclean", lambda s: [], cleanup_raises=lambda s: True),
               sync_effect("good", lambda s: [s])]),
}
# an effect on a component that moves and whose parent rerenders
effect_moves = {
    "R": Spec(0, lambda h, s: h.el("div", *[
        [h.comp("A", "a"), h.comp("B", "b")], [h.comp("B", "b"), h.comp("A", "a")],
        [h.el("p", h.comp("A", "a"), key="w"), h.comp("B", "b")], [h.comp("B", "b")]][s])),
    "A": Spec(0, lambda h, s: f"a{s}", [sync_effect("e", lambda s: [s]), sync_effect("o", lambda s: [])]),
    "B": Spec(0, lambda h, s: h.el("p", f"b{s}", h.comp("A", "x") if s == 0 else None), [sync_effect("e", lambda s: [s])]),
}


# C's effect has to wait for D, which is rendered after P has removed a child with a slow clean-up
effect_order = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c"), h.comp("P", "p") if s % 2 == 0 else None, h.comp("D", "d"))),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}"), [sync_effect("always", lambda s: None), sync_effect("dep", lambda s: [s])]),
    "P": Spec(0, lambda h, s: h.el("p", "p"), [async_effect("x", lambda s: [], shield=True)]),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}"), [sync_effect("dep", lambda s: [s])]),
    "AFTER": {"C": "D"},
}


def _async(**kw):
    return {
        "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c") if s != 2 else None)),
        "C": Spec(0, lambda h, s: h.el("p", f"c{s}"), [async_effect("x", lambda s: [s], **kw)]),
    }


async1 = _async()
async2 = _async(steps=2)
async_shield = _async(shield=True)
async_slow = _async(slow_cancel=2)
async_catch = _async(catches=True)
async_mixed = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}"), [async_effect("x", lambda s: [s]), sync_effect("y", lambda s: [s]),
                                                   async_effect("z", lambda s: [], shield=True)]),
}
# contexts: X and Y, provided at several levels, shadowed, moved and removed
ctx_simple = {
    "R": Spec(0, lambda h, s: h.el("div", h.comp("C", "o"), h.ctx("X", f"x{s}", h.comp("P", "p"), h.comp("C", "i")) if s != 3 else h.comp("C", "n"))),
    "P": Spec(0, lambda h, s: h.el("div", f"p{s}", h.comp("C", "c") if s != 2 else None)),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}:{h.read('X')}")),
}
ctx_shadow = {
    "R": Spec(0, lambda h, s: h.ctx("X", f"x{s}", h.el("div", h.comp("P", "p"), h.comp("C", "c")))),
    "P": Spec(0, lambda h, s: h.el("div", h.read("X"), [h.comp("M", "m"), h.ctx("X", "inner", h.comp("M", "m"), key="k"),
                                              h.ctx("Y", "other", h.comp("M", "m"), key="k"),
                                              h.ctx("X", "inner2", h.comp("M", "m"), key="k")][s])),
    "M": Spec(0, lambda h, s: h.el("div", f"m{s}", h.comp("C", "d"))),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}:{h.read('X')}:{h.read('Y')}")),
}
ctx_two = {
    "R": Spec(0, lambda h, s: h.ctx("X", f"x{s}", h.ctx("Y", "y0", h.comp("P", "p")), h.comp("C", "c"))),
    "P": Spec(0, lambda h, s: h.el("div", h.ctx("Y", f"y{s}", h.comp("M", "m"), h.comp("C", "c")), h.comp("C", "e"), key="w")),
    "M": Spec(0, lambda h, s: h.ctx("X", f"mx{s}", h.comp("C", "f")) if s % 2 else h.el("div", h.comp("C", "f"))),
    "C": Spec(0, lambda h, s: f"c{s}:{h.read('X')}:{h.read('Y')}"),
}
ctx_order = {
    "R": Spec(0, lambda h, s: h.el("div", [
        [h.ctx("X", "a", h.comp("C", "c"), key="1"), h.ctx("X", "b", h.comp("D", "d"), key="2")],
        [h.ctx("X", "b2", h.comp("D", "d"), key="2"), h.ctx("X", "a2", h.comp("C", "c"), key="1")],
        [h.ctx("Y", "a3", h.comp("C", "c"), key="1"), h.comp("D", "d")],
        [h.ctx("X", "d4", h.ctx("X", None, h.comp("D", "d")), h.comp("C", "c"), key="2")],
    ][s])),
    "C": Spec(0, lambda h, s: h.el("p", f"c{s}:{h.read('X')}:{h.read('Y')}")),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}:{h.read('X')}:{h.read('Y')}", h.comp("E", "e"))),
    "E": Spec(0, lambda h, s: f"e{s}:{h.read('X')}"),
}
# several elements with components below them which are removed at the same time
removals = {
    "R": Spec(0, lambda h, s: h.el("div", *[
        [h.el("p", h.comp("A", "a"), h.el("i", h.comp("A", "b")), key="1"), h.el("p", h.comp("B", "c"), key="2"), h.comp("B", "d"),
         h.el("p", h.comp("A", "e"), key="3")],
        [h.el("hr")],
        [h.el("p", h.comp("B", "c"), key="2")],
        [h.comp("B", "d"), h.el("p", h.comp("A", "e"), key="3")],
    ][s])),
    "A": Spec(0, lambda h, s: h.el("p", f"a{s}"), [sync_effect("e", lambda s: [s])]),
    "B": Spec(0, lambda h, s: h.el("p", h.el("b", h.comp("A", "x")), h.el("b", h.comp("A", "y"))), [sync_effect("o", lambda s: [])]),
}
# ever new keys
growing = {
    "R": Spec(0, lambda h, s: h.el("div", h.comp("C", f"k{s}"))),
    "C": Spec(0, lambda h, s: h.el("input", id=f"C{h.inst.key}", onClick=h.on("onClick", lambda i: i.update(lambda x: x + 1)))),
}
# state that is set while rendering: own, an ancestor's (in progress) and a sibling's (rendered before or after)
render_sets = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("D", "d"), h.comp("C", "c"), h.comp("P", "p") if s % 2 == 0 else None,
                                   h.comp("E", "e"))),
    "C": Spec(0, lambda h, s: (h.do(C_SETS.get(s, lambda app, i: None)), h.el("p", f"c{s}"))[1]),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}")),
    "E": Spec(0, lambda h, s: h.el("p", f"e{s}", h.do(lambda app, i: app.inst("R").set(6)) if s == 2 and h.inst.app.inst("R").want < 6 else None)),
    "P": Spec(0, lambda h, s: h.el("p", "p"), [async_effect("x", lambda s: [], shield=True)]),
}
C_SETS = {1: lambda app, i: app.inst("D").set(9), 2: lambda app, i: app.inst("R").update(lambda x: x + 1) if app.inst("R").want < 4 else None,
          3: lambda app, i: i.set(5), 4: lambda app, i: app.inst("E").set(2)}
# failing components
fails = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("F", "f"), h.comp("D", "d"))),
    "F": Spec(0, lambda h, s: (h.fail() if s == 1 else h.el("p", f"f{s}", h.comp("C", "c"))), [sync_effect("fe", lambda s: [])]),
    "C": Spec(0, lambda h, s: (h.fail("inner") if s == 1 else h.el("i", f"c{s}", h.comp("G", "g"))), [sync_effect("ce", lambda s: [s])]),
    "G": Spec(0, lambda h, s: f"g{s}", [sync_effect("ge", lambda s: [s])]),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}"), [sync_effect("de", lambda s: [])]),
}
# views which turn out to be invalid after parts of them were rendered
fails_deep = {
    "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("F", "f"), h.comp("D", "d"))),
    "F": Spec(0, lambda h, s: h.el("div", *[
        [h.el("p", h.comp("A", "a"), h.comp("B", "b"), key="x"), h.comp("A", "c"), h.el("p", h.comp("B", "z"), key="y")],
        [h.el("p", h.comp("A", "a"), h.bad("keys"), h.comp("B", "b"), key="x"), h.comp("A", "c"), h.el("p", h.comp("B", "z"), key="y")],
        [h.el("p", h.comp("B", "b"), h.comp("A", "a"), key="x"), h.bad("tag"), h.comp("A", "c")],
        [h.comp("A", "c"), h.el("p", h.comp("A", "new"), h.comp("B", "b"), key="x"), h.el("u", h.bad("keys"), key="y")],
    ][s]), [sync_effect("fe", lambda s: [])]),
    "A": Spec(0, lambda h, s: h.el("p", f"a{s}"), [sync_effect("e", lambda s: [s]), sync_effect("o", lambda s: [])]),
    "B": Spec(0, lambda h, s: h.el("p", f"b{s}", h.comp("A", "x") if s == 0 else "none"), [sync_effect("e", lambda s: [s])]),
    "D": Spec(0, lambda h, s: h.el("p", f"d{s}"), [sync_effect("de", lambda s: [])]),
}


class Custom(Exception):
    pass


KINDS = {k.__name__: k for k in (ValueError, KeyError, AttributeError, TypeError, AssertionError, OSError, StopIteration, StopAsyncIteration,
                                 ZeroDivisionError, RuntimeError, RecursionError, TimeoutError, UnicodeError, NotImplementedError,
                                 BufferError, EOFError, ImportError, MemoryError, NameError, SyntaxError, SystemError, Warning,
                                 Exception, Custom)}


def _kinds(kind):
    return {
        "R": Spec(0, lambda h, s: h.el("div", f"r{s}", h.comp("F", "f"), h.comp("D", "d"))),
        "F": Spec(0, lambda h, s: h.el("div", h.fail("boom", kind) if s == 1 else f"f{s}", h.comp("C", "c"),
                                       h.el("button", id="F", onClick=h.on("onClick", h.raiser(kind)))),
                  [sync_effect("fe", lambda s: [s], raises=lambda s: s == 2, cleanup_raises=lambda s: s == 3, kind=kind)]),
        "C": Spec(0, lambda h, s: h.el("i", f"c{s}"), [sync_effect("ce", lambda s: [])]),
        "D": Spec(0, lambda h, s: h.el("button", f"d{s}", id="Dd", onClick=h.on("onClick", lambda i: i.update(lambda x: x + 1))),
                  [sync_effect("de", lambda s: [])]),
    }


globals().update({f"kind_{k}": _kinds(v) for k, v in KINDS.items()})
PROGRAMS = {k: v for k, v in list(globals().items()) if isinstance(v, dict) and "R" in v}
