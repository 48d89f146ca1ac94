"""C21: configuration options.

Every sequence (to a bound) of operations on a chain of up to three options, from every initial environment, is
executed on the real Option class and compared with a reference model after every operation.
"""
from __future__ import annotations

import itertools
import os
import sys
import time

from mc import space
from mc.report import Check, tier
from mc.space import Result, words

from reactpy import config
from reactpy._option import DeprecatedOption, Option

NONE = object()


def number(v):
    if isinstance(v, bool):
        raise TypeError("not a number")
    n = int(v)
    if n < 0:
        raise ValueError("negative")
    return n


VALIDATORS = {"boolean": config.boolean, "number": number, "any": lambda x: x}
VALUES = {"boolean": ["true", "0", True, 1, "junk"], "number": ["1", 2, "junk", -1, 1], "any": ["a", "b", "", None, "a "]}
ENVS = {"boolean": [None, "1", "FALSE"], "number": [None, "2"], "any": [None, "", "b"]}
DEFAULTS = {"boolean": False, "number": 1, "any": "a"}


class Model:
    """What the property says about one option."""

    def __init__(self, name, kind, default, parent, mutable, env):
        self.kind, self.parent, self.mutable, self.name = kind, parent, mutable, name
        self.default = default
        self.own = NONE
        self.children = []
        self.subs = []
        if env is not None:
            self.own = VALIDATORS[kind](env)
        if parent is not None:
            parent.children.append(self)

    @property
    def value(self):
        return self.own if self.own is not NONE else self.parent.value if self.parent is not None else self.default

    def family(self):
        yield self
        for c in self.children:
            yield from c.family()

    def change(self, own):
        before = {m: m.value for m in self.family()}
        self.own = own
        for m, v in before.items():
            if m.value != v:
                for s in m.subs:
                    s.append(m.value)

    def set(self, v, identical):
        """-> the kind of exception expected, or None"""
        if not self.mutable:
            return None if identical else TypeError
        try:
            new = VALIDATORS[self.kind](v)
        except Exception as e:
            return type(e)
        self.change(new)

    def unset(self):
        if not self.mutable:
            return TypeError
        self.change(NONE)


def operations(kind, n, quick):
    ops = []
    for i in range(n):
        ops += [("set", i, v) for v in range(len(VALUES[kind]) if not quick else 4)]
        ops += [("unset", i), ("reload", i), ("default", i, 0), ("default", i, 1), ("subscribe", i), ("same", i)]
        ops += [("env", i, e) for e in ENVS[kind]]
    return ops


def judge(case):
    kind, shape, envs, mutable, history = case
    names = [f"VERIF_OPTION_{i}" for i in range(len(shape))]
    failures = []
    states = []
    try:
        for n, e in zip(names, envs):
            os.environ.pop(n, None)
            if e is not None:
                os.environ[n] = e
        real, model = [], []
        for i, parent in enumerate(shape):
            kw = {"validator": VALIDATORS[kind]}
            if parent is None:
                kw["default"] = DEFAULTS[kind]
            else:
                kw["parent"] = real[parent]
            cls = Option
            if mutable == "deprecated":
                cls, kw["message"] = DeprecatedOption, "old"
            real.append(cls(names[i], mutable=mutable != "immutable", **kw))
            model.append(Model(names[i], kind, DEFAULTS[kind], None if parent is None else model[parent], mutable != "immutable", envs[i]))
        seen = [[] for _ in shape]   # lists of (real log, model log)

        def look(what):
            for i, (r, m) in enumerate(zip(real, model)):
                v = r.current
                if v != m.value or type(v) is not type(m.value):
                    failures.append(f"{what}: option {i} is {v!r}, expected {m.value!r}")
                if r.mutable != m.mutable or r.name != m.name or repr(v) not in repr(r):
                    failures.append(f"{what}: option {i} describes itself as {r!r}")
                if m.own is not NONE and not r.is_set():
                    failures.append(f"{what}: option {i} claims not to be set")
                if m.own is NONE and r.is_set():
                    failures.append(f"{what}: option {i} claims to be set")
                for a, b in seen[i]:
                    if a != b:
                        failures.append(f"{what}: a subscriber of option {i} was told {a}, expected {b}")
        look("construction")
        done = []
        for op in history:
            if failures:
                break
            i = op[1]
            r, m = real[i], model[i]
            want = got = None
            done.append(op)
            try:
                if op[0] == "set":
                    v = VALUES[kind][op[2]]
                    want = m.set(v, v is r.current)
                    if len(done) % 2:
                        r.current = v
                    else:
                        r.set_current(v)
                elif op[0] == "same":
                    v = r.current
                    want = m.set(v, True)
                    r.set_current(v)
                elif op[0] == "unset":
                    want = m.unset()
                    if len(done) % 2:
                        r.unset()
                    else:
                        del r.current
                elif op[0] == "reload":
                    e = os.environ.get(names[i])
                    if e is not None:
                        want = m.set(e, e is r.current)
                    elif m.own is not NONE:
                        want = m.unset()
                    r.reload()
                elif op[0] == "default":
                    v = VALUES[kind][op[2]]
                    if m.own is NONE:
                        want = m.set(v, v is r.current)
                    x = r.set_default(v)
                    if x != m.value:
                        failures.append(f"{done}: set_default returned {x!r}, expected {m.value!r}")
                elif op[0] == "env":
                    os.environ.pop(names[i], None)
                    if op[2] is not None:
                        os.environ[names[i]] = op[2]
                elif op[0] == "subscribe":
                    if len(seen[i]) < 2:
                        a, b = [], []
                        want = None if m.mutable else TypeError
                        if r.subscribe(a.append) is None:
                            failures.append(f"{done}: subscribe did not return the handler")
                        b.append(m.value)
                        m.subs.append(b)
                        seen[i].append((a, b))
            except Exception as e:
                got = e
            if want is None and got is not None:
                failures.append(f"{done}: raised {got!r}")
            elif want is not None and not isinstance(got, want):
                failures.append(f"{done}: expected {want.__name__}, got {got!r}")
            look(str(done))
            states.append(hash((kind, shape, mutable, tuple((repr(r.current), r.is_set()) for r in real),
                                tuple(os.environ.get(n) for n in names), tuple(len(x) for x in seen))))
        return Result(failures, states, len(history), hash(states[-1]) if states else 0)
    finally:
        for n in names:
            os.environ.pop(n, None)


def histories(kind, shape, depth, mutables, quick):
    ops = operations(kind, len(shape), quick)
    for envs in itertools.product(ENVS[kind], repeat=len(shape)):
        for mutable in mutables:
            for w in words(ops, 1, depth):
                yield kind, shape, envs, mutable, w


# ---- the options of the package, each in the environment of a fresh interpreter

def judge_config(case):
    import subprocess
    env = {k: v for k, v in os.environ.items() if not k.startswith("REACTPY_")}
    env.update(dict(case))
    code = ("import reactpy.config as c, reactpy._option as o\n"
            "print({n: (getattr(c, n).current, getattr(c, n).name) for n in sorted(dir(c)) if isinstance(getattr(c, n), o.Option) and n != 'REACTPY_WEB_MODULES_DIR'})")
    p = subprocess.run([sys.executable, "-c", code], env=env, capture_output=True, text=True)
    d = dict(case)
    valid = {"1": True, "true": True, "0": False, "FALSE": False}
    if any(v not in valid for v in d.values()):
        return Result([] if p.returncode else [f"{case}: an invalid value was accepted: {p.stdout}"], [hash(case)], 1, "invalid")
    if p.returncode:
        return Result([f"{case}: {p.stderr[-300:]}"], [hash(case)], 1, "failed")
    got = eval(p.stdout.splitlines()[-1])
    failures = [f"{n} is named {name}" for n, (_, name) in got.items() if n != name]
    debug = valid.get(d.get("REACTPY_DEBUG"), False)
    want = {"REACTPY_DEBUG": debug, "REACTPY_CHECK_VDOM_SPEC": valid.get(d.get("REACTPY_CHECK_VDOM_SPEC"), debug),
            "REACTPY_CHECK_JSON_ATTRS": valid.get(d.get("REACTPY_CHECK_JSON_ATTRS"), debug),
            "REACTPY_ASYNC_RENDERING": valid.get(d.get("REACTPY_ASYNC_RENDERING"), got["REACTPY_ASYNC_RENDERING"][0])}
    for k, v in want.items():
        if got[k][0] is not v:
            failures.append(f"{case}: {k} is {got[k][0]!r}, expected {v!r}")
    return Result(failures, [hash(case)], 1, hash(p.stdout))


def config_cases():
    names = ["REACTPY_DEBUG", "REACTPY_CHECK_VDOM_SPEC", "REACTPY_CHECK_JSON_ATTRS", "REACTPY_ASYNC_RENDERING"]
    for vs in itertools.product((None, "1", "FALSE"), repeat=3):
        yield tuple((n, v) for n, v in zip(names, vs) if v is not None)
    for n in names:
        for v in ("true", "0", "junk", "", "2"):
            yield ((n, v),)


def main():
    chk = Check(sys.argv[1])
    q = tier() == "quick"
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 500 if q else 800))
    import warnings
    warnings.simplefilter("ignore")
    groups = []
    for kind in VALIDATORS:
        groups.append((f"one {kind} option", lambda kind=kind: histories(kind, (None,), 4 if q else 5, ("mutable", "immutable", "deprecated"), False), judge))
        groups.append((f"parent and child, {kind}", lambda kind=kind: histories(kind, (None, 0), 3, ("mutable",), False), judge))
    groups.append(("three generations", lambda: histories("boolean", (None, 0, 1), 2 if q else 3, ("mutable",), True), judge))
    groups.append(("two children", lambda: histories("number", (None, 0, 0), 2 if q else 3, ("mutable", "deprecated"), True), judge))
    groups.append(("the options of the package", config_cases, judge_config))
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per,
                 "case = a history of operations from one initial environment; state = (values, set flags, environment, subscribers), transition = operation",
                 "all histories of at most 4 (thorough 5) operations on one option, 3 on parent and child, 2 (3) on three options, from every "
                 "environment, for three validators and mutable, immutable and deprecated options; 47 environments for the package's own options",
                 ["subscribers do not raise and do not modify options", "children accept every value their parents accept"])
    chk.done()


if __name__ == "__main__":
    main()
