"""Evidence files, replay artefacts, known findings and the exit protocol shared by every check."""
from __future__ import annotations

import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings(prop):
    out = []
    path = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


class Check:
    """Collects what one check covered and ends the process in the agreed way."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.samples = []
        self.known_hit = []

    def add(self, key, n):
        self.coverage[key] = self.coverage.get(key, 0) + n

    def set(self, **kw):
        self.coverage.update(kw)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def violation(self, what, replay):
        """`what`: one line, `replay`: JSON-able artefact which reproduces it."""
        self.violations.append((what, replay))

    def known(self, ident, text):
        if ident not in self.known_hit:
            self.known_hit.append(ident)
            print(f"KNOWN-FINDING: property={self.prop} {text}")

    def done(self):
        ev = {
            "property": self.prop, "tier": tier(), "seed": seed(), "level": self.level,
            "coverage": {**self.coverage, "samples": self.samples},
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3), "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            d = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(self.violations[:5]):
                path = os.path.join(d, f"{self.prop}-{i}.json")
                with open(path, "w") as f:
                    json.dump({"property": self.prop, "what": what, "replay": replay}, f, indent=1, default=str)
                print(f"# {what}"[:2000])
                print(f"VIOLATION property={self.prop} replay={path}")
            sys.stdout.flush()
            os._exit(1)
        print(f"OK property={self.prop} tier={tier()} wall={ev['wall_s']}s "
              + json.dumps({k: v for k, v in self.coverage.items() if isinstance(v, (int, bool))}))
        sys.stdout.flush()
        os._exit(0)
