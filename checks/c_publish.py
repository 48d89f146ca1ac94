"""C25: publishing JavaScript modules from real processes, stepped through every interleaving, death and failure."""
from __future__ import annotations

import os
import shutil
import sys
import tempfile
import time

if __name__ == "__main__":
    from mc import fsx
    fsx.preload("checks.c_publish")

from pathlib import Path

from reactpy import config, reactjs
from reactpy.reactjs.module import get_module_path, module_name_suffix

from mc import fsx, space
from mc.report import Check, tier
from mc.space import Result

A = "export const A = 1; // a"
B = "export const A = 2; export const B = 3; // Bb"
UNI = "export const A = 'äö漢';\r\n// \u2028 x\n"
C = "export const A = 9; // c"  # as long as A
BIG = "export const A = 1;\n" + "// 0123456789 filler line\n" * 1200
TEXT = {"A": A, "B": B, "C": C, "U": UNI, "G": BIG, "E": ""}


class Space:
    """One scratch directory: sources and published modules."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="p-", dir=os.path.dirname(os.environ["VERIF_FSX"]))  # removed by fsx.preload
        self.web = os.path.join(self.dir, "web")
        self.src = os.path.join(self.dir, "src")
        os.mkdir(self.src)
        for k, t in TEXT.items():
            Path(self.src, f"{k}.js").write_bytes(t.encode())
            os.utime(Path(self.src, f"{k}.js"), (1e9, 1e9))  # e.g. as in a reproducible image
        self.sources = {k: os.path.join(self.src, f"{k}.js") for k in TEXT}

    def reset(self, init):
        shutil.rmtree(self.web, ignore_errors=True)
        os.mkdir(self.web)
        config.REACTPY_WEB_MODULES_DIR.current = Path(self.web)
        for what, name, key in init:
            p = os.path.join(self.web, *name.split("/"))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if what == "file":
                Path(p).write_bytes(TEXT[key].encode() if key in TEXT else key.encode())
                os.utime(p, (1e9, 1e9))
            elif what == "symlink":
                os.symlink(self.sources.get(key, os.path.join(self.src, "gone.js")), p)
            elif what == "hardlink":
                os.link(self.sources[key], p)

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_space = None


def the_space():
    global _space
    if _space is None or _space[0] != os.getpid():
        _space = (os.getpid(), Space())
    return _space[1]


def register(sp, op):
    kind, name, key = op
    if kind == "string":
        reactjs.component_from_string(TEXT[key], "A", name=name, resolve_imports=key != "E")
    elif kind == "anon":
        reactjs.component_from_string(TEXT[key], "A", resolve_imports=key != "E")
    else:
        reactjs.component_from_file(sp.sources[key], "A", name=name, resolve_imports=key != "E", symlink=kind == "symlink")


def target(sp, op):
    import hashlib
    kind, name, key = op
    if kind == "anon":
        name = hashlib.sha256(TEXT[key].encode()).hexdigest()[:10]
    return str(get_module_path(name + module_name_suffix(name)))


def job(sp, ops):
    def run(report):
        for cache in (reactjs._URL_JS_MODULE_CACHE, reactjs._FILE_JS_MODULE_CACHE, reactjs._STRING_JS_MODULE_CACHE):
            cache.clear()
        for op in ops:
            try:
                register(sp, op)
                report(["ok", ""])
            except Exception as e:
                report(["error", f"{type(e).__name__}: {e}"[:300]])
    return run


def content(path):
    try:
        with open(path, "rb") as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError):
        return None


class Monitor:
    def __init__(self, sp, scripts, init):
        self.sp, self.scripts = sp, scripts
        self.begin = [[0] for _ in scripts]
        self.end = [[] for _ in scripts]
        self.ok = [[] for _ in scripts]
        self.time = 0
        self.versions = {}
        for what, name, key in init:
            if name.endswith(".js"):
                p = os.path.join(sp.web, *name.split("/"))
                self.versions.setdefault(p, set()).add(content(p))
        for ops in scripts:
            for op in ops:
                self.versions.setdefault(target(sp, op), set()).add(TEXT[op[2]].encode())
        self.seen = set()

    def __call__(self, ws, w):
        self.time += 1
        out = []
        state = []
        for path, ok in self.versions.items():
            c = content(path)
            state.append(c)
            if c is not None and c not in ok:
                out.append(f"{path[len(self.sp.web):]} holds {c[:60]!r}{'...' if len(c) > 60 else ''}, which is no complete version")
        for k, p in self.sp.sources.items():
            if content(p) != TEXT[k].encode():
                out.append(f"the user's source file {k}.js was changed to {content(p)!r}"[:200])
                Path(p).unlink(missing_ok=True)
                Path(p).write_bytes(TEXT[k].encode())
        for i, x in enumerate(ws):
            for r in x.fresh:
                n = len(self.end[i])
                self.end[i].append(self.time)
                self.ok[i].append(r)
                if r[0] == "ok":
                    op = self.scripts[i][n]
                    want = {TEXT[op[2]].encode()}
                    for j, ops in enumerate(self.scripts):
                        for m, o in enumerate(ops):
                            if j != i and target(self.sp, o) == target(self.sp, op) and m < len(self.begin[j]) \
                                    and (m >= len(self.end[j]) or self.end[j][m] >= self.begin[i][n]):
                                want.add(TEXT[o[2]].encode())
                    c = content(target(self.sp, op))
                    if c not in want:
                        out.append(f"w{i} registered {op} but the file holds {c[:60] if c is not None else None!r}")
                self.begin[i].append(self.time)
            x.fresh.clear()
        self.seen.add(hash((tuple(state), tuple(len(e) for e in self.end), w.n if w else -1, w.pending[0] if w and w.pending else "")))
        return out


def explore(case):
    scripts, init, budget = case
    sp = the_space()
    res = Result(transitions=0)
    states, outcomes, runs = set(), set(), 0
    stack = [[]]
    while stack and not res.failures:
        prefix = stack.pop()
        fails, sched, choices, points, steps = one(sp, scripts, init, budget, prefix, states, outcomes)
        runs += 1
        res.transitions += steps
        if fails:
            res.failures = [f"{fails[0]}; schedule: {' / '.join(sched)[-1500:]}"]
        stack.extend(fsx.children(choices, points, len(prefix), budget))
    res.states = states
    res.outcome = hash(frozenset(outcomes))
    res.runs = runs
    return res


AFTER = [("string", "m", "B"), ("symlink", "m", "B"), ("file", "m", "A")]


def one(sp, scripts, init, budget, prefix, states, outcomes):
    sp.reset(init)
    mon = Monitor(sp, scripts, init)
    choices, points, sched, ws, fails = fsx.execute([job(sp, ops) for ops in scripts], sp.web, prefix, mon, budget)
    steps = len(sched)
    states |= mon.seen
    failed = [i for i in range(len(ws)) if any(s.startswith(f"w{i} FAILS") for s in sched)]
    held = {i for i in range(len(ws)) if f"w{i} IS HELD UP" in sched}
    if not fails:
        for i, w in enumerate(ws):
            if w.dead:
                continue
            if len(w.results) != len(scripts[i]):
                fails.append(f"w{i} ended early: {w.results} status {w.status}")
            for op, r in zip(scripts[i], w.results):
                # whoever waits for a lock may give up while its holder is held up
                if r[0] != "ok" and i not in failed and not (held - {i} and r[1].startswith("TimeoutError")):
                    fails.append(f"w{i}: registering {op} failed: {r[1]}")
    if not fails:
        hurt = failed or any(w.dead for w in ws) or any(r[0] != "ok" for w in ws for r in w.results)
        present = {p: content(p) for p in mon.versions}
        for i, ops in enumerate(scripts):
            for op, r in zip(ops, ws[i].results):
                if r[0] == "ok" and present[target(sp, op)] is None and not hurt:
                    fails.append(f"w{i} registered {op} but finally the file is missing")
        outcomes.add(hash((tuple(present.values()), tuple(tuple(r[0] for r in w.results) for w in ws), bool(hurt))))
        if hurt and not fails:
            # whoever comes later can register everything
            for i, ops in enumerate(scripts):
                if ws[i].dead or i in failed or any(r[0] != "ok" for r in ws[i].results):
                    if all(o[1] == "m" for o in ops):
                        ops = [*ops, *AFTER]
                    m2 = Monitor(sp, [ops], init)
                    for p, v in mon.versions.items():
                        m2.versions.setdefault(p, set()).update(v)
                    _, _, s2, w2, f2 = fsx.execute([job(sp, ops)], sp.web, [], m2, {})
                    steps += len(s2)
                    sched = sched + ["afterwards"] + s2[-6:]
                    fails += f2
                    for op, r in zip(ops, w2[0].results):
                        if r[0] != "ok":
                            fails.append(f"after that, registering {op} fails: {r[1]}")
                    if fails:
                        break
    return fails, sched, choices, points, steps


def scenarios(q):
    K = ["string", "file", "symlink"]
    ops = [(k, "m", c) for k in K for c in "AB"]
    single, pairs, triples, faults = [], [], [], []
    inits = [[], [("file", "m.js", "A")], [("file", "m.js", "B")], [("symlink", "m.js", "B")], [("symlink", "m.js", "A")],
             [("hardlink", "m.js", "B")], [("symlink", "m.js", "gone")],
             [("file", "m.js.lock", "")], [("file", "m.js.tmp", "garbage")]]
    # one worker: dies at any step / a step fails
    for op in ops:
        for init in inits:
            single.append(([[op]], init, {"kill": 1}))
            faults.append(([[op]], init, {"fail": 1 if q else 2}))
    for op in [(k, n, c) for k in K for n in ("pkg/m", "@ns/m.js", "a/b/c.mjs") for c in "A"] + [("anon", "", "A")] + \
            [(k, n, "A") for k in K for n in ("m.js", "lib@1.2", "@ns/lib@1.2/sub.js")]:
        single.append(([[op]], [], {"kill": 1}))
        faults.append(([[op]], [], {"fail": 1}))
    for k in K:
        for c in "UGE":
            single.append(([[(k, "m", c)]], [], {"kill": 1}))
            single.append(([[(k, "m", c)]], [("file", "m.js", "B")], {"kill": 1}))
    for k in K:  # contents of equal length (and age)
        for c, d in ("AC", "CA"):
            single.append(([[(k, "m", c)]], [("file", "m.js", d)], {"kill": 1}))
            single.append(([[(k, "m", c), (k, "m", d)]], [], {"kill": 1}))
            single.append(([[(k, "m", c), ("string", "m", d)]], [("symlink", "m.js", d)], {}))
    # sequences in one process
    for a in ops:
        for b in ops:
            single.append(([[a, b]], [], {"kill": 1}))
            single.append(([[a, b, a]], [], {} if q else {"kill": 1}))
    # two failures in a row
    for k in K:
        faults.append(([[(k, "m", "A")]], [("file", "m.js", "B")], {"fail": 2 if q else 3}))
        faults.append(([[(k, "m", "A")]], [("file", "m.js", "B")], {"fail": 2, "kill": 1} if not q else {"fail": 1, "kill": 1}))
    # two workers
    deep = {"preempt": 2 if q else 3}
    for i, a in enumerate(ops):
        for b in ops[i:]:
            same = a == b or (a[0] != b[0] and a[2] == b[2])
            for init in ([[]] if q and not same else [[], [("file", "m.js", "B")]]):
                pairs.append(([[a], [b]], init, deep if a == b or not q else {"preempt": 1}))
            pairs.append(([[a], [b]], [], {"preempt": 1, "kill": 1}))
    for k in K:
        pairs.append(([[(k, "pkg/m", "A")], [(k, "pkg/m", "A")]], [], deep))
        pairs.append(([[(k, "pkg/m", "A")], [(k, "pkg/n", "B")]], [], {"preempt": 1, "kill": 1}))
        pairs.append(([[(k, "m", "A")], [(k, "m", "B")]], [("file", "m.js.lock", "")], {"preempt": 1}))
        pairs.append(([[(k, "m", "A")], [(k, "m", "A")]], [], {"preempt": 1, "fail": 1}))
        pairs.append(([[(k, "m", "A"), (k, "m", "B")], [(k, "m", "A")]], [], {"preempt": 2}))
        for c in "AB":
            pairs.append(([[(k, "m", "A")], [(k, "m", c)]], [], {"pause": 1}))
            pairs.append(([[(k, "m", "A")], [("string", "m", c)]], [("file", "m.js", "B")], {"pause": 1 if q else 2, "preempt": 1}))
        pairs.append(([[(k, "m", "A")], [(k, "m", "A"), (k, "m", "B")]], [], {"preempt": 2}))  # the lock is removed and made again
        triples.append(([[(k, "m", "A")], [(k, "m", "A")], [(k, "m", "B")]], [], {"preempt": 1 if q else 2, "switch": 3}))
        triples.append(([[(k, "m", "A")], [("string", "m", "B")], [("file", "m", "A")]], [], {"preempt": 1 if q else 2, "switch": 3}))
    return [("deaths", single), ("failures", faults), ("two workers", pairs), ("three workers", triples)]


def judge(case):
    return explore(case)


def main():
    chk = Check("C25")
    q = tier() == "quick"
    space.CASE_LIMIT = 3000
    groups = [(n, c, judge) for n, c in scenarios(q)]
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 600 if q else 800))
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per, rule="every schedule of file-system steps of real registering processes, every death before a step, every failing step, every process held up at a step for longer than any other waits",
                 bound="1-3 processes, up to 3 registrations each, preemptions/deaths/failures per scenario as listed in scenarios(): 1-3 preemptions, 1 death, 1-3 failing steps, 1-2 processes held up",
                 assumptions=["a process crash loses nothing that was handed to the kernel (power loss is not modelled)",
                              "while file links are unsupported and a published file is replaced by a hard link it may be absent"])
    chk.done()


if __name__ == "__main__":
    main()
