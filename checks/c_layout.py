"""Schedule exploration of the real layout: C01 C02 C04 C05 C08 C11 C12 (see DESIGN.md)."""
import itertools
import json
import os
import sys
import time

from checks.layout_h import LayoutHarness
from checks.programs import KINDS
from mc import explore, space
from mc.report import Check, tier
from mc.space import Result, words

MODES = ("async", "serial")


def job(prop, judge, program, acts, bound, **kw):
    return (LayoutHarness, dict(prop=prop, judge=judge, program=program, acts=acts, **kw), bound)


def jobs_for(prop):
    q = tier() == "quick"
    out = []

    def add(judge, program, acts, quick, thorough, modes=MODES, consumers=("auto", "gated"), **kw):
        for m in modes:
            for c in consumers:
                out.append(job(prop, judge, program, acts, quick if q else thorough, mode=m, consumer=c, **kw))

    if prop == "C01":
        add(["view", "state"], "parent_child", [["R=1", "R=2"], ["C=1"]], 3, 5)
        add(["view", "state"], "cousins", [["R=1"], ["C=1", "D=1"]], 3, 4)
        add(["view", "state"], "moves", [["R=1", "R=2"], ["B=1"], ["C=1"]], 2, 3)
        add(["view", "state"], "moves", [["R=2", "R=3", "R=0"], ["A=1", "B=2"]], 2, 3)
        add(["view", "state"], "deep", [["R=1"], ["P=1"], ["C=1", "C=2"], ["R=2"]], 2, 3)
        add(["view", "state"], "kinds", [["R=1", "R=2", "R=0", "R=3", "R=4", "R=1"], ["A=1"], ["B=1"]], 1, 2)
        add(["view", "state"], "slow", [["P=1", "P=0"], ["E=1"], ["D=1"], ["R=1"]], 2, 3)
        add(["view", "state"], "clicks", [["R!onClick", "R!onClick"], ["C!onClick"]], 2, 3)
        add(["view", "state"], "effect_sets", [["C=1", "R=2"], ["D=3"]], 2, 3)
    if prop == "C02":
        add(["stream"], "moves", [["R=1", "R=2", "R=3"], ["B=1"], ["C=1"]], 2, 3)
        add(["stream"], "deep", [["R=1"], ["P=1", "P=0"], ["C=1", "C=2"], ["R=2"]], 2, 3)
        add(["stream"], "kinds", [["R=1", "R=2", "R=0", "R=3", "R=4", "R=1"], ["A=1"], ["B=1"]], 1, 2)
        add(["stream"], "slow", [["P=1"], ["E=1"], ["D=1"], ["R=1"]], 2, 3)
        add(["stream"], "fails", [["F=1", "F=2"], ["C=1", "C=2"], ["G=1"], ["R=1"]], 1, 2)
        add(["stream"], "clicks", [["R!onClick", "R!onClick"], ["C!onClick"]], 2, 3)
    if prop == "C04":
        add(["effects"], "effects", [["R=1", "R=2", "R=0"], ["C=1", "C=2"]], 2, 3)
        add(["effects"], "effect_sets", [["C=1", "R=2"], ["D=3"]], 2, 3)
        add(["effects"], "effect_raises", [["R=1", "R=2", "R=0"], ["C=1", "C=2"]], 2, 3)
        add(["effects"], "effect_moves", [["R=1", "R=2", "R=3", "R=0"], ["A=1"], ["B=1"]], 1, 2)
        add(["effects"], "kinds_fx", [["R=3", "R=0", "R=1", "R=3", "R=2", "R=5", "R=4"], ["A=1"], ["B=1"]], 1, 2)
        add(["effects"], "kinds_fx", [["R=2", "R=1", "R=0"], ["R=3"]], 2, 3)
        add(["effects"], "effect_order", [["R=1", "R=2"], ["C=1", "D=1"]], 2, 3)
        add(["effects"], "effects", [["R=1", "R=2"], ["C=1"]], 2, 3, close=True)
        add(["effects"], "removals", [["R=1", "R=0", "R=2", "R=3"], ["B=1"]], 1, 2)
        add(["effects"], "removals", [["R=2", "R=1"], ["B=1"]], 1, 2, close=True)
        add(["effects"], "fails_deep", [["F=1", "F=0", "F=2", "F=3", "F=0"], ["A=1"]], 1, 2)
        add(["effects"], "fails", [["F=1", "F=2"], ["C=1", "C=2"], ["R=1"]], 1, 2)
    if prop == "C05":
        for prog in ("async1", "async2", "async_shield", "async_slow", "async_catch"):
            add(["effects"], prog, [["C=1", "C=2"], ["R=2"]], 2, 3, consumers=("auto",))
        add(["effects"], "async1", [["C=1", "C=2", "C=3"], ["R=2"]], 2, 3, consumers=("auto",))
        add(["effects"], "async_mixed", [["C=1", "R=2", "R=0"], ["C=2"]], 2, 3, consumers=("auto",))
        for prog in ("async1", "async_shield", "async_catch"):
            add(["effects"], prog, [["C=1", "C=2"]], 2, 3, consumers=("auto",), close=True)
    if prop == "C08":
        j = ["view", "state", "renders"]
        add(j, "parent_child", [["C+1", "C+2"], ["C+4"], ["R+1"]], 3, 4)
        add(j, "parent_child", [["C+1;C=0", "C=0", "C+1;C+0;C+2"], ["C=3", "C=3"], ["R=0;R=1"]], 2, 3)
        add(j, "clicks", [["C!onClick", "C!onClick"], ["C!onClick", "R!onClick"], ["C+1"]], 2, 3)
        add(j, "cousins", [["C+1", "D+1"], ["C+1", "C=7"], ["R+1"]], 2, 3)
        add(j, "slow", [["P=1", "E+1", "P+0"], ["E+1", "D+1"], ["R=1;R=2"]], 2, 3)
        add(j, "render_sets", [["C=1", "C=2", "C=3"], ["C=4"], ["R=1"]], 2, 3)
        add(j, "render_sets", [["C=2", "R=0", "C=2"], ["E=2"], ["D+1"]], 2, 3)
        add(j, "effect_sets", [["C=1", "R=2"], ["D=3", "D=3"]], 2, 3)
    if prop == "C11":
        for d in (False, True):
            add(["view", "state", "effects"], "fails", [["F=1", "F=2"], ["D=1"]], 2, 3, debug=d)
            add(["view", "state", "effects"], "fails", [["F=1", "F=0"], ["C=1", "C=2"], ["G=1"]], 1, 2, debug=d)
            add(["view", "state", "effects"], "fails", [["C=1", "C=2", "C=1"], ["R=1"], ["F=1"]], 1, 2, debug=d)
        add(["view", "state", "effects"], "fails_deep", [["F=1", "F=0", "F=2", "F=0"], ["A=1", "B=1"], ["R=1"]], 1, 2)
        add(["view", "state", "effects"], "fails_deep", [["F=3", "F=0", "F=1", "F=2", "F=0"], ["D=1"]], 1, 2)
        add(["view", "state", "effects"], "fails_deep", [["F=2", "F=1", "F=3", "F=0"], ["D=1"]], 2, 3)
    if prop == "C12":
        for prog, acts in (("effects", [["R=1", "R=2"], ["C=1"]]), ("moves", [["R=1", "R=2"], ["B=1"]]),
                           ("slow", [["P=1"], ["E=1"], ["R=1"]]), ("clicks", [["R!onClick"], ["C!onClick"]]),
                           ("effect_sets", [["C=1"], ["R=2"]]), ("async1", [["C=1", "C=2"]]),
                           ("async_shield", [["C=1"], ["R=2"]]), ("async_mixed", [["C=1"], ["R=2"]]),
                           ("fails", [["F=1", "F=2"], ["C=1"]]), ("effect_raises", [["C=1"], ["R=2"]])):
            add(["effects", "close"], prog, acts, 2, 3, close=True,
                consumers=("auto", "gated") if prog in ("moves", "async_mixed") or not q else ("auto",))
        for queue in (1, 1000):
            add(["effects", "close"], "busy", [["R!onClick", "R!onClick", "R!onClick"], ["C!onClick", "R=2"]], 2, 3, close=True,
                consumers=("auto",), queue=queue)
            add(["effects", "close"], "busy", [["C!onClick", "C!onClick"], ["R!onKeyDown", "R!onKeyDown"]], 2, 3, close=True,
                consumers=("auto",), queue=queue)
        # whoever closes the layout may be cancelled again meanwhile
        for prog, acts in (("async_shield", [["C=1"], ["R=2"]]), ("async_slow", [["C=1"]]), ("async_mixed", [["C=1"], ["R=2"]]),
                           ("slow", [["P=1"], ["E=1"]]), ("removals", [["R=2"], ["B=1"]]), ("busy", [["R!onClick", "R!onClick"]]),
                           ("effect_sets", [["C=1"]])):
            add(["effects", "close"], prog, acts, 2, 3, close=True, close2=True, consumers=("auto",))
        add(["effects", "close"], "removals", [["R=1"], ["B=1"]], 1, 2, close=True, consumers=("auto",))
    return out


def run_word(prop, program, word, mode, judge, **kw):
    return explore.execute(LayoutHarness, dict(prop=prop, judge=judge, program=program, acts=[list(word)], mode=mode, settled=True, **kw),
                           [], None, True)


def judge_word(case):
    prop, judge, program, word, mode, debug = case
    r = run_word(prop, program, word, mode, list(judge), debug=debug)
    return Result(r.failures, [hash((program, mode, tuple(r.trace[:i]))) for i, x in enumerate(r.trace) if x.startswith("!")], r.steps, r.outcome)


def groups_for(prop):
    """Histories in which everything settles before the next operation."""
    q = tier() == "quick"
    if prop == "C11":
        def kinds():
            j = ("view", "state", "effects", "events")
            for k in KINDS:
                for w in itertools.chain(words(["F=1", "F=2", "F=3", "F=0"], 1, 2 if q else 4),
                                         [("F!onClick", "D#d!onClick", "F!onClick", "F=1", "D#d!onClick", "F=0", "F!onClick")]):
                    for m in MODES:
                        for d in (False, True):
                            yield "C11", j, f"kind_{k}", w + ("D#d!onClick",), m, d

        def deep():
            for w in words(["F=0", "F=1", "F=2", "F=3", "A=1", "D=1"], 1, 3 if q else 5):
                for m in MODES:
                    yield "C11", ("view", "state", "effects"), "fails_deep", w, m, False
        return [("kinds of errors", kinds, judge_word), ("invalid views", deep, judge_word)]
    if prop == "C08":
        from checks import c_hist
        return c_hist.c08_groups(q)
    if prop == "C04":
        def removals():
            for p, al in (("removals", ["R=0", "R=1", "R=2", "R=3", "A=1", "B=1"]), ("kinds_fx", ["R=0", "R=1", "R=2", "R=3", "R=5", "A=1"]),
                          ("effect_moves", ["R=0", "R=1", "R=2", "R=3", "A=1", "B=1"]),
                          ("fails_deep", ["F=0", "F=1", "F=2", "F=3", "A=1"]),
                          ("fails", ["F=0", "F=1", "F=2", "C=1", "C=2", "R=1"]), ("kind_ValueError", ["F=0", "F=1", "F=2", "F=3"])):
                for w in words(al, 1, 3 if q else 5):
                    for m in MODES:
                        yield "C04", ("effects",), p, w, m, False
        return [("removals", removals, judge_word)]
    return []


RULE = ("An execution is one complete run of the real layout under one schedule; state = (history of observable "
        "events so far, ready callbacks, environment progress) at a choice point; transition = one loop step or "
        "environment action.")


def main():
    prop = sys.argv[1]
    chk = Check(prop)
    budget = float(os.environ.get("VERIF_BUDGET", 700 if tier() == "quick" else 800))
    jobs = jobs_for(prop)
    total, per = explore.explore_many(jobs, time.time() + budget)
    report(chk, jobs, total, per)
    groups = groups_for(prop)
    if groups:
        t, gper = space.run(groups, time.time() + budget)
        chk.set(histories={g[0]: x.cases for g, x in zip(groups, gper)}, history_states=len(t.states), history_transitions=t.transitions,
                histories_capped=t.capped)
        space.report_violations(chk, groups, t)
    chk.done()


def report(chk, jobs, total, per):
    chk.set(states=len(total.states), transitions=total.steps, traces_validated_against_impl=total.executions,
            distinct_outcomes=len(total.outcomes), scenarios=len(per), rule=RULE,
            executions_by_deviations={str(k): v for k, v in sorted(total.by_dev.items())},
            exhaustive=not total.capped and not total.diverged, capped=total.capped, diverged=total.diverged,
            bound="all schedules with at most the listed number of deviations from the default one, per scenario")
    for (name, key), st in list(per.items()):
        chk.sample({"harness": name, "scenario": json.loads(key), "executions": st.executions,
                    "distinct_outcomes": len(st.outcomes)})
    chk.assumptions = ["asyncio runs ready callbacks in FIFO order", "one process, one thread",
                       "states beyond the stated bounds are not covered"]
    report_violations(chk, jobs, total)


def report_violations(chk, jobs, total):
    by = {c.name: c for c, _, _ in jobs}
    for v in total.violations[:5]:
        name, params, choices, failures, sched, trace = v
        best = explore.minimise(by[name], params, choices, failures)
        chk.violation(f"{best.failures[0]} | schedule {best.schedule}",
                      {"harness": name, "params": params, "choices": best.choices, "failures": best.failures,
                       "schedule": best.schedule, "trace": best.trace})


if __name__ == "__main__":
    main()
