"""C33: preparing the wheel for PyScript from real processes, stepped through every interleaving, death and failure."""
from __future__ import annotations

import base64
import csv
import hashlib
import io
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import zipfile

if __name__ == "__main__":
    from mc import fsx
    fsx.preload("checks.c_wheel")

from mc import fsx, space
from mc.report import REPO, Check, tier
from mc.space import Result

PART = ("core/layout.py", "_html.py", "static/index.js")  # files of the package that the scenarios change
SKIP = {"static", "__pycache__"}
HATCH = """#!/bin/sh
# what `hatch build -t wheel` leaves behind: a complete wheel of the current source, under its final name at once
[ "$1 $2 $3" = "build -t wheel" ] || exit 3
echo x >> builds
[ "$(cat broken 2>/dev/null)" = kill ] && kill -9 $$
[ -e broken ] && exit 1
mkdir -p dist
{ echo "wheel begin"; cat pyproject.toml; cat src/reactpy/core/layout.py.v src/reactpy/_html.py.v src/reactpy/static/index.js.v 2>/dev/null; head -c 300 /dev/zero; echo "wheel end"; } > dist/.new
mv dist/.new "dist/reactpy-$(cat version)-$(cat tag).whl"
"""
# what PyScript cannot tell apart: the versions are read back from these side files
MARK = {"pyproject.toml": "pyproject.toml", "core/layout.py": "src/reactpy/core/layout.py.v", "_html.py": "src/reactpy/_html.py.v", "static/index.js": "src/reactpy/static/index.js.v"}


class Space:
    """A scratch copy of the package: as a source checkout or as an installed distribution."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="w-", dir=os.path.dirname(os.environ["VERIF_FSX"]))  # removed by fsx.preload
        self.env = os.path.join(self.dir, "env")
        self.src = os.path.join(self.env, "src")
        self.pkg = os.path.join(self.src, "reactpy")
        shutil.copytree(os.path.join(REPO, "src", "reactpy"), self.pkg,
                        ignore=lambda d, names: [n for n in names if n in SKIP])
        assert not any(m == "reactpy" or m.startswith("reactpy.") for m in sys.modules)
        sys.path.insert(0, self.src)
        import reactpy
        from reactpy.executors.pyscript import utils
        assert reactpy.__file__.startswith(self.pkg)
        self.reactpy, self.utils = reactpy, utils
        self.version = reactpy.__version__
        self.static = os.path.join(self.pkg, "static")
        self.wheels = os.path.join(self.static, "wheels")
        self.dist = os.path.join(self.env, "dist")
        self.hatch = os.path.join(self.env, ".venv", "bin", "hatch")
        os.makedirs(os.path.dirname(self.hatch))
        write(self.hatch, HATCH)
        os.chmod(self.hatch, 0o755)
        write(os.path.join(self.env, "version"), self.version)
        self.orig = {f: read(os.path.join(self.pkg, f)) for f in PART}
        self.info = f"reactpy-{self.version}.dist-info"
        for root, _, files in os.walk(self.pkg):
            for f in files:
                os.utime(os.path.join(root, f), (100, 100))

    def name(self, tag="py3-none-any", version=None):
        return f"reactpy-{version or self.version}-{tag}.whl"

    def reset(self, layout, init):
        shutil.rmtree(self.static, ignore_errors=True)
        shutil.rmtree(self.dist, ignore_errors=True)
        shutil.rmtree(os.path.join(self.src, self.info), ignore_errors=True)
        os.mkdir(self.static)
        for f in ("builds", "broken", "pyproject.toml"):
            if os.path.exists(os.path.join(self.env, f)):
                os.unlink(os.path.join(self.env, f))
        self.state = {}
        if layout == "source":
            write(os.path.join(self.env, "tag"), "py3-none-any")
            for f in (*PART, "pyproject.toml"):
                self.edit(f, 0, mtime=200)
        else:
            self.install(layout)
        for what, name, age in init:
            p = os.path.join(self.env, *name.replace("NAME", self.name()).replace("VERSION", self.version).split("/"))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if what == "wheel":
                write(p, self.build())
            elif what == "dir":
                os.makedirs(p, exist_ok=True)
            else:
                write(p, what.encode())
            os.utime(p, (age, age))

    def edit(self, f, v, mtime=None):
        """Change a file of the source checkout."""
        p = os.path.join(self.env, MARK[f])
        real = os.path.join(self.env, f) if f == "pyproject.toml" else os.path.join(self.pkg, f)
        write(p, f"{f} {v}\n".encode())
        self.state[f] = v
        if real != p:
            os.utime(p, (50, 50))
            if not os.path.exists(real):
                write(real, b"")
        if mtime is not None:
            os.utime(real, (mtime, mtime))
            return
        os.utime(real)

    def build(self):
        """What HATCH makes of the current state."""
        return ("wheel begin\n" + "".join(f"{f} {self.state[f]}\n" for f in ("pyproject.toml", *PART)) + "\0" * 300 + "wheel end\n").encode()

    def install(self, layout):
        kind, files = layout
        d = os.path.join(self.src, self.info)
        os.mkdir(d)
        rows = []
        self.content = {}
        for name, text in files:
            name = name.replace("INFO", self.info)
            p = os.path.normpath(os.path.join(self.src, name))
            if text is not None:
                assert p.startswith(self.dir)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                write(p, text.encode())
            rows.append(name)
            if text is not None and not name.startswith("..") and not name.startswith("/") and not name.endswith("/RECORD"):
                self.content[name] = text.encode()
        if kind == "record":
            rows.append(f"{self.info}/RECORD")
        if kind != "none":
            out = io.StringIO()
            csv.writer(out, lineterminator="\n").writerows([r, "", ""] for r in rows)
            write(os.path.join(d, "RECORD"), out.getvalue())
        write(os.path.join(d, "METADATA"), f"Metadata-Version: 2.1\nName: reactpy\nVersion: {self.version}\n".encode())
        if f"{self.info}/METADATA" in rows:
            self.content[f"{self.info}/METADATA"] = read(os.path.join(d, "METADATA"))

    def builds(self):
        p = os.path.join(self.env, "builds")
        return len(read(p).split()) if os.path.exists(p) else 0


def write(p, data):
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def read(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except (FileNotFoundError, NotADirectoryError, IsADirectoryError):
        return None


_space = None


def the_space():
    global _space
    if _space is None or _space[0] != os.getpid():
        _space = (os.getpid(), Space())
    return _space[1]


def prepare(sp):
    """The wheel that a page with PyScript is told to install."""
    cfg = json.loads(sp.utils.extend_pyscript_config((), {}, {}))
    url = cfg["packages"][0]
    prefix = sp.reactpy.config.REACTPY_PATH_PREFIX.current + "static/wheels/"
    if not url.startswith(prefix) or "/" in url[len(prefix):]:
        raise AssertionError(f"unexpected location {url!r}")
    return url[len(prefix):]


def job(sp, ops):
    def run(report):
        for op in ops:
            if op == "prepare":
                try:
                    report(["ok", prepare(sp)])
                except Exception as e:
                    report(["error", f"{type(e).__name__}: {e}"[:300]])
            else:  # an edit while others work; looking at the directory first makes it a step
                os.path.exists(os.path.join(sp.static, "edit"))
                f, v = op
                subprocess.run(["sh", "-c", f'sleep 0.012; printf "%s {v}\\n" "{f}" > {MARK[f]!r}; [ "{MARK[f]}" = "{f}" ] || touch src/reactpy/{f}'],
                               cwd=sp.env, check=True, stdin=subprocess.DEVNULL)
                report(["edit", f, v])
    return run


def complete_wheel(sp, data):
    """What is wrong with a reconstructed wheel."""
    try:
        z = zipfile.ZipFile(io.BytesIO(data))
        bad = z.testzip()
        names = z.namelist()
    except Exception as e:
        return f"is no readable archive: {e!r}"
    if bad:
        return f"has the damaged member {bad}"
    if len(set(names)) != len(names):
        return "has duplicate members"
    record = f"{sp.info}/RECORD"
    if set(names) != {*sp.content, record}:
        return f"has members {sorted(set(names) ^ {*sp.content, record})} too many or too few"
    for n, c in sp.content.items():
        if z.read(n) != c:
            return f"has {n} with other content"
    rows = {r[0]: r[1:] for r in csv.reader(io.StringIO(z.read(record).decode()))}
    want = {n: ["sha256=" + base64.urlsafe_b64encode(hashlib.sha256(c).digest()).rstrip(b"=").decode(), str(len(c))] for n, c in sp.content.items()}
    want[record] = ["", ""]
    if rows != want:
        return f"has the record {rows} instead of {want}"
    return None


def version_of(data):
    """The versions of the source files within a complete wheel of HATCH, or None."""
    if not data or not data.startswith(b"wheel begin\n") or not data.endswith(b"\0" * 300 + b"wheel end\n"):
        return None
    lines = data[12:-310].decode().split("\n")
    try:
        return {x.rsplit(" ", 1)[0]: int(x.rsplit(" ", 1)[1]) for x in lines if x}
    except (ValueError, IndexError):
        return None


class Monitor:
    def __init__(self, sp, layout, scripts, others):
        self.sp, self.source, self.scripts = sp, layout == "source", scripts
        self.others = others  # files that are not ours
        self.begin = [dict(sp.state) for _ in scripts]
        self.seen = set()
        self.ok = {}
        self.given = set()  # names of wheels some page may already refer to

    def look(self):
        sp = self.sp
        out = {}
        try:
            names = os.listdir(sp.wheels)
        except FileNotFoundError:
            names = []
        for n in sorted(names):
            out[n] = read(os.path.join(sp.wheels, n))
        return out

    def wrong(self, n, c):
        if c is None or n in self.others or not n.endswith(".whl"):
            return None
        h = hash(c)
        if h not in self.ok:
            self.ok[h] = (None if version_of(c) else "is incomplete") if self.source else complete_wheel(self.sp, c)
        return self.ok[h]

    def __call__(self, ws, w):
        sp, out = self.sp, []
        now = self.look()
        for n, c in now.items():
            e = self.wrong(n, c)
            if e:
                out.append(f"the wheel {n} ({len(c)} bytes) {e}")
        for n in self.given:
            if n not in now and n.startswith(f"reactpy-{sp.version}-"):
                out.append(f"the wheel {n} is missing although it was given to someone before")
        for n, c in self.others.items():
            if now.get(n) != c:
                out.append(f"the unrelated file {n} was changed or removed")
        for i, x in enumerate(ws):
            for r in x.fresh:
                if r[0] == "edit":
                    sp.state[r[1]] = max(sp.state[r[1]], r[2])
                elif r[0] == "ok":
                    self.given.add(r[1])
                    if not r[1].endswith(".whl") or not r[1].startswith(f"reactpy-{sp.version}-"):
                        out.append(f"w{i} was given {r[1]}, which is not named as a wheel of version {sp.version}")
                    elif now.get(r[1]) is None:
                        out.append(f"w{i} was given {r[1]}, which does not exist")
                    elif self.source and not self.wrong(r[1], now[r[1]]):
                        v = version_of(now[r[1]])
                        # anyone still at work may publish what was current when that call began
                        old = [self.begin[i]] + [self.begin[j] for j, o in enumerate(ws) if j != i and not o.done]
                        for f in v:
                            if v[f] < min(o[f] for o in old):
                                out.append(f"w{i} was given a wheel with {f} of version {v[f]}, although {self.begin[i][f]} was current when it asked")
                self.begin[i] = dict(sp.state)
            x.fresh.clear()
        self.seen.add(hash((tuple((n, hash(c)) for n, c in now.items()), tuple(len(x.results) for x in ws), w.n if w else -1, w.pending[0] if w and w.pending else "")))
        return out


def explore(case):
    layout, scripts, init, budget = case
    sp = the_space()
    res = Result(transitions=0)
    states, outcomes, runs = set(), set(), 0
    stack = [[]]
    while stack and not res.failures:
        prefix = stack.pop()
        fails, sched, choices, points, steps = one(sp, layout, scripts, init, budget, prefix, states, outcomes)
        runs += 1
        res.transitions += steps
        if fails:
            res.failures = [f"{fails[0]}; schedule: {' / '.join(sched)[-1500:]}"]
        stack.extend(fsx.children(choices, points, len(prefix), budget))
    res.states = states
    res.outcome = hash(frozenset(outcomes))
    res.runs = runs
    return res


def one(sp, layout, scripts, init, budget, prefix, states, outcomes):
    sp.reset(layout, init)
    others = {n: c for n, c in Monitor(sp, layout, [], {}).look().items() if not (n.startswith("reactpy-") and ".whl" in n or n.endswith(".tmp"))}
    before = set(Monitor(sp, layout, [], {}).look())
    mon = Monitor(sp, layout, scripts, others)
    choices, points, sched, ws, fails = fsx.execute([job(sp, ops) for ops in scripts], sp.static, prefix, mon, budget)
    steps = len(sched)
    states |= mon.seen
    failed = [i for i in range(len(ws)) if any(s.startswith(f"w{i} FAILS") for s in sched)]
    if not fails:
        for i, w in enumerate(ws):
            if w.dead:
                continue
            if len(w.results) != len(scripts[i]):
                fails.append(f"w{i} ended early: {w.results} status {w.status}")
            for r in w.results:
                if r[0] == "error" and i not in failed:
                    fails.append(f"w{i} could not prepare the wheel: {r[1]}")
    if not fails:
        hurt = failed or any(w.dead for w in ws)
        left = mon.look()
        outcomes.add(hash((tuple(left), tuple(tuple(r[0] for r in w.results) for w in ws), bool(hurt))))
        if not any(w.dead for w in ws):
            odd = [n for n in left if n not in before and not n.endswith(".whl")]
            if odd and not failed:
                fails.append(f"files were left behind: {odd}")
        if not fails:
            # whoever comes later gets the current wheel, without building it again when it is there
            m2 = Monitor(sp, layout, [["prepare"] * 2], others)
            _, _, s2, w2, f2 = fsx.execute([job(sp, ["prepare"] * 2)], sp.static, [], m2, {})
            steps += len(s2)
            fails += f2
            if not fails:
                for r in w2[0].results:
                    if r[0] != "ok":
                        fails.append(f"after that, preparing the wheel fails: {r[1]}")
                if len(w2[0].results) != 2:
                    fails.append(f"after that, preparing the wheel ends early with status {w2[0].status}")
                if not fails and layout == "source":
                    v = version_of(mon.look().get(w2[0].results[1][1]))
                    if v != sp.state:
                        fails.append(f"finally the wheel holds {v} instead of the current {sp.state}")
            if fails:
                sched = sched + ["afterwards"] + s2[-8:]
    return fails, sched, choices, points, steps


# ---- histories of one process: edits and requests ----

def history(case):
    init, ops, spelling = case
    sp = the_space()
    sp.reset("source", init)
    if spelling:  # a version, and how it is written in the name of a wheel
        sp.reactpy.__version__, name = sp.version + spelling[0], sp.version + spelling[1]
        write(os.path.join(sp.env, "version"), name)
        try:
            return history_(init, ops, sp)
        finally:
            sp.reactpy.__version__ = sp.version
            write(os.path.join(sp.env, "version"), sp.version)
    return history_(init, ops, sp)


def history_(init, ops, sp):
    res = Result(transitions=len(ops))
    seen = set()
    n = {f: 0 for f in MARK}
    mon = Monitor(sp, "source", [[]], {})
    fresh = None
    for op in ops:
        if op == "prepare":
            b = sp.builds()
            broken = os.path.exists(os.path.join(sp.env, "broken"))
            try:
                name = prepare(sp)
            except Exception as e:
                if broken and not fresh and isinstance(e, RuntimeError):
                    continue  # better than a wheel of another source
                res.failures.append(f"preparing the wheel failed: {type(e).__name__}: {e}")
                break
            data = mon.look().get(name)
            v = version_of(data)
            if v != sp.state:
                res.failures.append(f"the wheel {name} holds {v} instead of the current {sp.state}")
                break
            if fresh and sp.builds() != b:
                res.failures.append("the wheel was built again although nothing had changed")
                break
            fresh = True
        elif op[0] == "edit":
            time.sleep(0.012)  # more than the granularity of time stamps
            n[op[1]] += 1
            sp.edit(op[1], n[op[1]])
            fresh = None
        elif op[0] == "touch":  # a file that is no source
            p = os.path.join(sp.env, op[1])
            os.makedirs(os.path.dirname(p), exist_ok=True)
            write(p, b"x")
        elif op[0] == "lose":
            for x in mon.look():
                os.unlink(os.path.join(sp.wheels, x))
            fresh = None
        elif op[0] == "break":  # builds fail from now on
            write(os.path.join(sp.env, "broken"), op[1])
        elif op[0] == "mend":
            if os.path.exists(os.path.join(sp.env, "broken")):
                os.unlink(os.path.join(sp.env, "broken"))
        elif op[0] == "tag":  # the next build is named differently
            write(os.path.join(sp.env, "tag"), op[1])
        seen.add(hash((tuple(sorted(sp.state.items())), tuple((k, hash(c)) for k, c in mon.look().items()), fresh)))
    clean(sp)
    res.states = seen
    res.outcome = hash((tuple(sorted(sp.state.items())), bool(fresh)))
    return res


def clean(sp):
    shutil.rmtree(os.path.join(sp.pkg, "core", "__pycache__"), ignore_errors=True)
    for root, _, files in os.walk(sp.pkg):
        for f in files:
            if f.endswith((".pyc", ".orig")):
                os.unlink(os.path.join(root, f))


def histories(q):
    edits = [("edit", f) for f in MARK]
    touch = [("touch", "src/reactpy/core/__pycache__/layout.cpython-312.pyc"), ("touch", "src/reactpy/core/layout.pyc"),
             ("touch", "dist/notes.txt"), ("touch", "src/reactpy/static/wheels/reactpy-0.0.1-py3-none-any.whl"), ("touch", "README.md")]
    letters = ["prepare", *edits, *touch, ("lose",), ("tag", "py2.py3-none-any")]
    inits = [[], [("wheel", "src/reactpy/static/wheels/NAME", 150)], [("wheel", "src/reactpy/static/wheels/NAME", 300)],
             [("junk", "src/reactpy/static/wheels/reactpy-0.0.1-py3-none-any.whl", 300)],
             [("junk", "src/reactpy/static/wheels/reactpy-VERSION.whl", 300)],
             [("junk", "src/reactpy/static/wheels/reactpy-VERSION0-py3-none-any.whl", 300)],
             [("junk", "src/reactpy/static/wheels/reactpy-VERSION.post1-py3-none-any.whl", 300)],
             [("junk", "dist/reactpy-0.0.1-py3-none-any.whl", 300)],
             [("junk", "src/reactpy/static/wheels/NAME.tmp", 300)]]
    for init in inits:
        yield init, ("prepare", "prepare"), None
    for spelling in (("+Local-x_1", "+local.x.1"), (".DEV1", ".dev1"), ("+a.b", "+a.b")):
        for init in inits:
            for w in space.words(["prepare", edits[0], ("lose",)], 0, 2):
                yield init, (*w, "prepare", "prepare"), spelling
    for how in ("1", "kill"):
        for init in inits[:3]:
            for w in space.words(["prepare", edits[0], ("lose",), ("break", how), ("mend",)], 1, 4 if q else 5):
                if ("break", how) in w and w[-1] == "prepare":
                    yield init, (*w, ("mend",), "prepare"), None
    for w in space.words(letters, 1, 3 if q else 4):
        if w[-1] == "prepare" and not (("tag", "py2.py3-none-any") in w and w.index(("tag", "py2.py3-none-any")) > 0):
            yield [], w, None
            yield [("wheel", "src/reactpy/static/wheels/NAME", 300)], ("prepare", *w), None


# ---- installed distributions ----

FILES = [("INFO/METADATA", "M"), ("INFO/WHEEL", "Wheel-Version: 1.0\nTag: py3-none-any\n"), ("reactpy/_x.py", "print('ä')\n")]


def judge_installed(case):
    kind, files, init = case
    sp = the_space()
    sp.reset((kind, files), init)
    for n in list(sp.content):
        if n.endswith("/METADATA"):
            sp.content[n] = read(os.path.join(sp.src, n))
    res = Result(transitions=2)
    tag = next((line[5:].strip() for n, t in files if n == "INFO/WHEEL" and t for line in t.split("\n") if line.startswith("Tag: ")), "py3-none-any")
    try:
        first = prepare(sp)
        data = read(os.path.join(sp.wheels, first))
        second = prepare(sp)
    except Exception as e:
        res.failures.append(f"preparing the wheel failed: {type(e).__name__}: {e}")
        return res
    finally:
        for n, t in files:
            p = os.path.normpath(os.path.join(sp.src, n.replace("INFO", sp.info)))
            if t is not None and sp.info not in p and p.startswith(sp.dir) and os.path.isfile(p):
                os.unlink(p)
    if first != sp.name(tag):
        res.failures.append(f"the wheel is named {first}, not {sp.name(tag)}")
    e = complete_wheel(sp, data)
    if e:
        res.failures.append(f"the wheel {e}")
    if second != first or read(os.path.join(sp.wheels, first)) != data:
        res.failures.append(f"the second request got another wheel: {second}")
    left = [n for n in os.listdir(sp.wheels) if not n.endswith(".whl")]
    if left:
        res.failures.append(f"files were left behind: {left}")
    res.states = {hash((tuple(sorted(sp.content)), tag))}
    res.outcome = hash(data)
    return res


def installed(q):
    extra = [[("reactpy/core/deep/_y.py", "")], [("../../bin/reactpy", "#!")], [("reactpy/_gone.py", None)],
             [("reactpy/_data, with \"comma\".txt", "x" * 99)], [("/etc/hostname", None)],
             [("reactpy/__pycache__/_x.cpython-312.pyc", "pyc")], [("INFO/licenses/LICENSE", "MIT")],
             [("reactpy/sub/../_z.py", "z")], [("INFO/entry_points.txt", "[console_scripts]\n")]]
    wheels = [FILES[1], ("INFO/WHEEL", "Wheel-Version: 1.0\nTag: py2-none-any\nTag: py3-none-any\n"), ("INFO/WHEEL", "Wheel-Version: 1.0\n"), None]
    inits = [[], [("junk", "src/reactpy/static/wheels/reactpy-0.0.1-py3-none-any.whl", 300)],
             [("junk", "src/reactpy/static/wheels/reactpy-VERSION0-py3-none-any.whl", 300)]]
    for kind in ("record", "norecord"):
        for w in wheels:
            base = [FILES[0], *([w] if w else []), FILES[2]]
            for n in range(3 if q else 4):
                for c in itertools.combinations(extra, n):
                    files = base + [f for g in c for f in g]
                    if any(".." in f[0] and not f[0].startswith("..") for f in files):
                        continue
                    yield kind, files, []
            for init in inits:
                yield kind, base, init


def judge(case):
    return explore(case)


def scenarios(q):
    old = [("wheel", "src/reactpy/static/wheels/NAME", 150)]
    other = [("wheel", "src/reactpy/static/wheels/reactpy-0.0.1-py3-none-any.whl", 300)]
    alt = [("wheel", "src/reactpy/static/wheels/reactpy-VERSION-py2.py3-none-any.whl", 150)]
    cur = [("wheel", "src/reactpy/static/wheels/NAME", 300)]
    junk = [("garbage", "src/reactpy/static/wheels/NAME.tmp", 300), ("mine", "src/reactpy/static/wheels/notes.whl", 300)]
    inst = ("record", FILES)
    P = ["prepare"]
    E = [("core/layout.py", 1)]
    one_, two, edit = [], [], []
    for init in ([], old, other, alt, cur, junk, old + other + junk):
        one_.append(("source", [P], init, {"kill": 1}))
        one_.append(("source", [P], init, {"fail": 1 if q else 2}))
        two.append(("source", [P, P], init, {"preempt": 1, "kill": 1}))
        two.append(("source", [P, P], init, {"preempt": 2 if q else 3}))
        edit.append(("source", [P, E], init, {"preempt": 1 if q else 2}))
        edit.append(("source", [P + P, E], init, {"preempt": 1}))
    for init in ([], [("garbage", "src/reactpy/static/wheels/reactpy-VERSION-py3-none-any.tmp", 300)], other):
        i2 = [("junk" if w == "wheel" else w, n, a) for w, n, a in init if w != "wheel"]
        one_.append((inst, [P], i2, {"kill": 1}))
        one_.append((inst, [P], i2, {"fail": 1 if q else 2}))
        two.append((inst, [P, P], i2, {"preempt": 1, "kill": 1}))
        two.append((inst, [P, P], i2, {"preempt": 2 if q else 3}))
    for init in ([], old):
        edit.append(("source", [P, P, E], init, {"preempt": 1}))
        edit.append(("source", [P, E + P], init, {"preempt": 1}))
        if not q:
            two.append(("source", [P, P, P], init, {"preempt": 2, "switch": 3}))
    return [("one worker", one_, judge), ("two workers", two, judge), ("edits", edit, judge)]


def main():
    chk = Check("C33")
    q = tier() == "quick"
    space.CASE_LIMIT = 3000
    groups = [*scenarios(q), ("histories", lambda: histories(q), history), ("installed", lambda: installed(q), judge_installed)]
    deadline = time.time() + float(os.environ.get("VERIF_BUDGET", 600 if q else 800))
    total, per = space.run(groups, deadline)
    space.finish(chk, groups, total, per,
                 rule="every schedule of file-system steps of real processes preparing the wheel, every death before a step, every failing step; every history of edits and requests",
                 bound="1-3 processes with up to 2 requests, 1-3 preemptions, 1 death, 1-2 failing steps; histories of up to 3 (thorough 4) letters; distributions with up to 2 (3) unusual files",
                 assumptions=["`hatch build` is a stand-in that publishes a complete wheel of the current source at once; its run is one step",
                              "a process crash loses nothing that was handed to the kernel (power loss is not modelled)",
                              "source files get newer time stamps when they change, and none is deleted"])
    chk.done()


if __name__ == "__main__":
    main()
