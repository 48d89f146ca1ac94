"""Writes MANIFEST.json from the list of claimed checks and properties.jsonl."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = ("stateless model checking of the implementation: deviation-bounded exhaustive exploration of event-loop "
         "schedules under a controlled loop")
SCHED_NOTE = ("Every schedule with at most the reported number of deviations of each listed closed scenario is executed on "
              "the real code and judged against a reference model; nothing is claimed beyond those bounds. Trusts the "
              "FIFO order of asyncio's ready queue and the harness.")
CLAIMS = {p: (f"./run.sh c_layout {p}", SCHED, SCHED_NOTE) for p in ("C01", "C02", "C04", "C05", "C08", "C11", "C12")}
CLAIMS.update({p: (f"./run.sh c_events {p}", SCHED, SCHED_NOTE) for p in ("C06", "C07", "C14")})
HIST = ("stateless model checking of the implementation: exhaustive enumeration of operation histories up to a depth on the "
        "real code, every step compared with a reference model")
HIST_NOTE = ("Every history of the reported alphabets up to the reported length is executed on the real code and judged "
             "step by step; nothing is claimed beyond those bounds. Trusts the reference model and the harness.")
CLAIMS.update({p: (f"./run.sh c_hist {p}", HIST, HIST_NOTE) for p in ("C03", "C09", "C10", "C28", "C29")})

CLAIMS["C13"] = ("./run.sh c_sessions", SCHED, SCHED_NOTE)
SPACE = ("bounded exhaustive exploration of the implementation: every input, request or operation sequence of a stated finite "
         "space is executed on the real code and compared with an independent reference model")
CLAIMS.update({p: (f"./run.sh c_asgi {p}", SPACE, HIST_NOTE) for p in ("C19", "C20")})
CLAIMS["C22"] = ("./run.sh c_html C22", SPACE, HIST_NOTE)
CLAIMS["C21"] = ("./run.sh c_option C21", HIST, HIST_NOTE)
CLAIMS.update({p: (f"./run.sh c_build {p}", SPACE, HIST_NOTE) for p in ("C23", "C24")})
FS = ("stateless model checking of the implementation: real processes stepped at every file-system "
      "call by an interposed controller, which enumerates interleavings (preemption-bounded), deaths, torn writes and failing calls",
      "Every schedule within the reported preemption, death and failure budgets is executed with real processes on a real directory, "
      "observed after every step; nothing is claimed beyond those bounds. Power loss is not modelled.")
CLAIMS["C25"] = ("./run.sh c_publish", *FS)
CLAIMS["C33"] = ("./run.sh c_wheel", *FS)
CLAIMS.update({p: (f"./run.sh c_client {p}", HIST, HIST_NOTE) for p in ("C15", "C16", "C17", "C18", "C31")})
CLAIMS["C26"] = ("./run.sh c_imports", SPACE, HIST_NOTE)
CLAIMS["C27"] = ("./run.sh c_embed", SPACE, HIST_NOTE)
CLAIMS["C30"] = ("./run.sh c_rewrite C30", SPACE, HIST_NOTE)
CLAIMS["C34"] = ("./run.sh c_page", SPACE, HIST_NOTE)
CLAIMS["C32"] = ("./run.sh c_helpers C32", HIST, HIST_NOTE)

props = [json.loads(x) for x in open(f"{ROOT}/properties.jsonl")]
manifest = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {"property": p["id"], "quick_cmd": CLAIMS[p["id"]][0], "thorough_cmd": "VERIF_TIER=thorough " + CLAIMS[p["id"]][0],
         "technique": CLAIMS[p["id"]][1], "level": "model_checking", "level_note": CLAIMS[p["id"]][2]}
        for p in props if p["id"] in CLAIMS],
    "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in props if p["id"] not in CLAIMS],
}
json.dump(manifest, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
