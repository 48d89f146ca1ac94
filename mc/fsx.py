"""Exhaustive exploration of file-system steps, deaths and failures of real worker processes.

Workers are forked from the (preloaded, single-threaded) controller.  Every file-system step below the scratch
directory waits for the controller (fsx.c), which enumerates depth first

* which worker performs the next step (switching away from a worker that could go on costs one preemption),
* whether the worker dies just before the step (a write is two steps, so it can be torn),
* whether the step fails with an error,
* whether the worker is held up for as long as the others can do or wait for anything (a busy or suspended machine),

each within its own budget, and lets `monitor` look at the directory after every step.
"""
from __future__ import annotations

import ctypes
import json
import mmap
import os
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
FAILABLE = {"create-excl", "open-trunc", "open-w", "write-1", "write-2", "rename", "link", "symlink", "unlink", "mkdir", "chmod", "lock", "truncate"}
STEP_LIMIT = 3000


def preload(argv_module):
    """Build the interposition library and restart this check with it."""
    if os.environ.get("VERIF_FSX"):
        return
    d = tempfile.mkdtemp(prefix="verif-fsx-")
    lib = os.path.join(d, "fsx.so")
    subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", lib, os.path.join(HERE, "fsx.c"), "-ldl"], check=True)
    env = dict(os.environ, LD_PRELOAD=lib, VERIF_FSX=lib)
    try:
        r = subprocess.run([sys.executable, "-m", argv_module, *sys.argv[1:]], env=env).returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.stdout.flush()
    os._exit(r)


_lib = None
_clock = None


def lib():
    global _lib, _clock
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["VERIF_FSX"])
        _lib.fsx_start.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_void_p]
        _clock = ctypes.c_int64.from_buffer(mmap.mmap(-1, 4096))
    return _lib


class Worker:
    def __init__(self, n, job, root):
        self.n = n
        a, b = socket.socketpair()
        lib()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                a.close()
                for s in (signal.SIGPROF, signal.SIGTERM, signal.SIGINT):
                    signal.signal(s, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_PROF, 0)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)
                results = []
                _lib.fsx_start(b.fileno(), root.encode(), ctypes.addressof(_clock))
                job(lambda r: (results.append(r), b.sendall(b"result\t" + json.dumps(r).encode() + b"\t\n"))[0])
                _lib.fsx_stop()
                code = 0
            finally:
                os._exit(code)
        b.close()
        self.sock = a
        self.buf = b""
        self.results = []
        self.fresh = []  # results not yet judged
        self.pending = None
        self.dead = self.done = False
        self.wake = None
        self.blocked = False
        self.paused = False
        self.steps = 0

    def read(self):
        """Wait for the next step this worker wants to perform, or for its end."""
        while True:
            while b"\n" in self.buf:
                line, self.buf = self.buf.split(b"\n", 1)
                op, x, y = line.decode().split("\t")
                if op == "result":
                    r = json.loads(x)
                    self.results.append(r)
                    self.fresh.append(r)
                    continue
                self.pending = (op, x, y)
                if op == "sleep":
                    self.wake = _clock.value + int(x)
                self.blocked = op == "blocked"
                return
            data = self.sock.recv(65536)
            if not data:
                self.end()
                return
            self.buf += data

    def end(self):
        self.pending = None
        self.done = True
        self.sock.close()
        _, st = os.waitpid(self.pid, 0)
        self.status = st

    def answer(self, c):
        self.sock.sendall(c)
        if c == b"k":
            self.dead = True
            self.end()
        else:
            self.wake = None
            self.pending = None
            self.steps += 1
            self.read()

    def kill(self):
        if not self.done:
            os.kill(self.pid, signal.SIGKILL)
            self.end()


class Divergence(Exception):
    pass


def execute(jobs, root, prefix, monitor, budget, crashable=None):
    """One execution.  Returns (choices, alternatives-per-point, schedule, workers, failures).

    alternatives = list of (kind, worker) with kind in "go", "switch", "preempt", "kill", "fail", "pause"; alternative 0 is the default.
    """
    lib()
    _clock.value = int(time.time() * 1e9)
    ws = [Worker(n, j, root) for n, j in enumerate(jobs)]
    choices, points, sched, failures = [], [], [], []
    current = 0
    steps = 0
    try:
        for w in ws:
            w.read()
        failures += monitor(ws, None)
        while not failures:
            everyone = [w for w in ws if not w.done]
            if not everyone:
                break
            live = [w for w in everyone if not w.paused]
            if not any(w.wake is not None or not w.blocked for w in live):
                for w in everyone:
                    w.paused = False
                live = everyone
            run = [w for w in live if not w.blocked and w.wake is None]
            sleepers = sorted((w for w in live if w.wake is not None), key=lambda w: (w.wake, w.n))
            if not run and not sleepers:
                failures.append("deadlock: " + ", ".join(f"w{w.n} waits for {w.pending}" for w in live))
                break
            default = next((w for w in run if w.n == current), None)
            preempts = default is not None
            if default is None:
                default = run[0] if run else sleepers[0]
            alts = [("go", default)]
            for w in run + sleepers[:1]:
                if w is not default:
                    alts.append(("preempt" if preempts or (run and w in sleepers) else "switch", w))
            if default.wake is None:
                op, path, _ = default.pending
                if crashable is None or default.n in crashable:
                    alts.append(("kill", default))
                    if op in FAILABLE:
                        alts.append(("fail", default))
                if len(live) > 1:
                    alts.append(("pause", default))
            alts = [a for a in alts if a[0] in ("go", "switch") or budget.get(a[0], 0)]
            i = len(choices)
            c = 0
            if len(alts) > 1:
                c = prefix[i] if i < len(prefix) else 0
                if c >= len(alts):
                    raise Divergence(f"choice {c} of {len(alts)} at {i}: {sched[-4:]}")
                choices.append(c)
                points.append([a[0] for a in alts])
            kind, w = alts[c]
            if kind == "pause":
                w.paused = True
                sched.append(f"w{w.n} IS HELD UP")
                continue
            op, x, y = w.pending
            sched.append(f"w{w.n} {'DIES before ' if kind == 'kill' else 'FAILS ' if kind == 'fail' else ''}{op} {x} {y}".strip())
            current = w.n
            if w.wake is not None:
                _clock.value = max(_clock.value, w.wake)
            _clock.value += 1000
            w.answer(b"k" if kind == "kill" else b"e" if kind == "fail" else b"g")
            if kind == "kill" or op not in ("look", "open-r", "sleep", "blocked"):
                for o in ws:
                    o.blocked = False
            failures += monitor(ws, w)
            steps += 1
            if steps > STEP_LIMIT:
                failures.append("no end is in sight")
        if not failures and len(choices) < len(prefix):
            raise Divergence("execution ended before its prefix")
    finally:
        for w in ws:
            w.kill()
    return choices, points, sched, ws, failures


def children(choices, points, start, budget):
    """Prefixes with one more deviation than `choices` after position `start`, within the budgets."""
    for i in range(start, len(choices)):
        for alt in range(1, len(points[i])):
            used = {}
            for c, p in zip(choices[:i] + [alt], points):
                used[p[c]] = used.get(p[c], 0) + 1
            if all(k in ("go",) or n <= budget.get(k, 10 ** 6 if k == "switch" else 0) for k, n in used.items()) \
                    and used.get("switch", 0) <= budget.get("switch", 2):
                yield choices[:i] + [alt]
