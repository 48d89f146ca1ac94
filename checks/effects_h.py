"""Lifecycle monitors for effects, plugged into layout harness programs."""
from __future__ import annotations

import asyncio

from reactpy.core.hooks import use_async_effect, use_effect


class Monitor:
    """What each (instance, effect) did: runs started, finished, cancelled and cleaned up."""

    def __init__(self, h):
        self.h = h
        self.runs = {}       # (iid, label) -> list of run dicts
        self.requests = {}   # (iid, label) -> deps of the last rendering
        self.history = {}    # (iid, label) -> deps of all renderings

    def key_runs(self, iid, label):
        return self.runs.setdefault((iid, label), [])

    def start(self, inst, label, deps):
        rs = self.key_runs(inst.iid, label)
        for r in rs:
            if r["state"] in ("running", "active"):
                self.h.fail(f"{self.h.prop}:effect {label} of {inst.name}{inst.iid} run {len(rs)} started while run "
                            f"{rs.index(r)} is {r['state']}")
        if self.h.closed:
            self.h.fail(f"{self.h.prop}:effect {label} of {inst.name}{inst.iid} started after the layout was closed")
        hist = self.history[(inst.iid, label)]
        at = [i for i, x in enumerate(hist) if x is deps][0]
        if rs and all(d == deps for d in hist[rs[-1]["at"]:at]):
            self.h.fail(f"{self.h.prop}:effect {label} of {inst.name}{inst.iid} ran again for the same {deps}")
        other = self.h.app.program.get("AFTER", {}).get(inst.name)
        if other:
            self.judge_after(inst, label, other)
        run = {"state": "running", "deps": deps, "n": len(rs), "cleanups": 0, "at": at}
        rs.append(run)
        self.h.log(f"effect {inst.name}{inst.iid}.{label}#{run['n']} {deps}")
        return run

    def judge_after(self, inst, label, other):
        """`other` is rendered after `inst` whenever the root renders both: the effect has to wait for it."""
        tr = self.h.trace
        mine = max(i for i, x in enumerate(tr) if x.startswith(f"render {inst.name}{inst.iid}="))
        roots = [i for i, x in enumerate(tr[:mine]) if x.startswith("render R1=")]
        if roots and not any(x.startswith(f"render {other}") for x in tr[roots[-1]:]):
            self.h.fail(f"{self.h.prop}:effect {label} of {inst.name}{inst.iid} ran before its render was completed")

    def request(self, inst, label, deps):
        """The rendering in progress asks for the effect with these dependencies (None: always)."""
        want = ["render", inst.renders] if deps is None else list(deps)
        self.requests[(inst.iid, label)] = want
        self.history.setdefault((inst.iid, label), []).append(want)
        return want

    def ready(self, inst, label, run):
        if run["state"] == "running":
            run["state"] = "active"

    def cancelled(self, inst, label, run):
        run["state"] = "cancelled"
        self.h.log(f"cancelled {inst.name}{inst.iid}.{label}#{run['n']}")

    def failed(self, inst, label, run):
        run["state"] = "failed"

    def clean(self, inst, label, run):
        run["cleanups"] += 1
        self.h.log(f"cleanup {inst.name}{inst.iid}.{label}#{run['n']}")
        if run["state"] not in ("running", "active"):
            self.h.fail(f"{self.h.prop}:clean-up of {label} of {inst.name}{inst.iid} run {run['n']} in state {run['state']}")
        run["state"] = "cleaned"

    def judge(self, live):
        """At rest: each live instance has exactly one active run of each effect with the current deps."""
        for (iid, label), rs in self.runs.items():
            inst = self.h.app.insts[iid]
            active = [r for r in rs if r["state"] in ("running", "active")]
            who = f"effect {label} of {inst.name}{iid}"
            if iid not in live and active:
                self.h.fail(f"{self.h.prop}:{who} still active although the component is gone: runs "
                            f"{[r['n'] for r in active]}")
            for r in rs:
                if r["cleanups"] > 1:
                    self.h.fail(f"{self.h.prop}:{who} run {r['n']} cleaned up {r['cleanups']} times")
        for (iid, label), deps in self.requests.items():
            if iid not in live:
                continue
            inst = self.h.app.insts[iid]
            rs = self.runs.get((iid, label), [])
            if not rs or rs[-1]["deps"] != deps:
                self.h.fail(f"{self.h.prop}:effect {label} of {inst.name}{iid} last ran for "
                            f"{rs[-1]['deps'] if rs else 'nothing'}, last requested for {deps}")
            elif rs[-1]["state"] not in ("active", "failed") and not (rs[-1]["state"] == "running"):
                self.h.fail(f"{self.h.prop}:effect {label} of {inst.name}{iid} is {rs[-1]['state']} although displayed")


def sync_effect(label, deps, cleanup=True, sets=None, raises=None, cleanup_sets=None, cleanup_raises=None,
                kind=ValueError):
    """deps(s) -> list or None; sets(app, inst): state change made by the effect"""

    def request(app, inst, s):
        d = deps(s)
        m = app.h.monitor
        want = m.request(inst, label, d)

        def effect():
            run = m.start(inst, label, want)
            if raises and raises(s):
                m.failed(inst, label, run)
                raise kind("effect")
            if sets:
                sets(app, inst)
            m.ready(inst, label, run)
            if not cleanup:
                run["state"] = "cleaned"
                return None

            def clean():
                m.clean(inst, label, run)
                if cleanup_sets:
                    cleanup_sets(app, inst)
                if cleanup_raises and cleanup_raises(s):
                    raise kind("cleanup")
            return clean
        use_effect(effect, d)
    return request


def async_effect(label, deps, shield=False, steps=1, slow_cancel=None, catches=False):
    """An effect that waits for `steps` user futures, then returns a clean-up."""

    def request(app, inst, s):
        d = deps(s)
        m = app.h.monitor
        want = m.request(inst, label, d)

        async def effect():
            run = m.start(inst, label, want)
            try:
                for i in range(steps):
                    fut = app.h.loop.create_future()
                    app.h.pending.append((f"{inst.name}{inst.iid}.{label}#{run['n']}.{i}", fut))
                    await fut
            except asyncio.CancelledError:
                if shield:
                    app.h.fail(f"{app.h.prop}:shielded effect {label} of {inst.name}{inst.iid} was cancelled")
                if slow_cancel:
                    run["state"] = "running"
                    for i in range(slow_cancel):
                        await asyncio.sleep(0)
                if catches:
                    m.ready(inst, label, run)

                    def clean():
                        m.clean(inst, label, run)
                    return clean
                m.cancelled(inst, label, run)
                raise
            m.ready(inst, label, run)

            def clean():
                m.clean(inst, label, run)
            return clean
        use_async_effect(effect, d, shield)
    return request
