"""Create planted bugs: python3 tools/seed.py SPEC.py  (SPEC defines SEEDS: id -> dict)

Each spec: property, needs, breaks, edits [(file, old, new)], demo (python source), or
demo_sh.  Writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json}.
"""
import json, os, pathlib, runpy, shutil, subprocess, sys

BASE = "2ded593"
ROOT = pathlib.Path(__file__).resolve().parent.parent / "seeded"


def sh(*a, **k):
    return subprocess.run(a, check=True, capture_output=True, text=True, **k).stdout


def main(spec, only):
    seeds = runpy.run_path(spec)["SEEDS"]
    for sid, s in seeds.items():
        if only and sid not in only:
            continue
        wt = "/tmp/seedwt"
        subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)
        sh("git", "-C", "/repo", "worktree", "add", "--detach", wt, "HEAD")
        try:
            for f, old, new in s["edits"]:
                p = pathlib.Path(wt, f)
                t = p.read_text()
                if t.count(old) != 1:
                    raise SystemExit(f"{sid}: {t.count(old)} matches in {f} for {old!r}")
                p.write_text(t.replace(old, new))
            diff = sh("git", "-C", wt, "diff", "-U3")
            # the removed lines have to be lines of the original repository
            own = []
            for f in {e[0] for e in s["edits"]}:
                d = sh("git", "-C", wt, "diff", "-U0", "--", f)
                blame = sh("git", "-C", wt, "blame", "-s", "HEAD", "--", f).splitlines()
                import re
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))?", d, re.M):
                    start, n = int(m[1]), int(m[2] or 1)
                    for i in range(start, start + n):
                        own.append(not blame[i - 1].startswith("^"))
            note = "" if own and not all(own) else "  ** no original line changed **"
            d = ROOT / sid
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir(parents=True)
            (d / "patch.diff").write_text(diff)
            (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
            if "demo_sh" in s:
                (d / "demo.sh").write_text(s["demo_sh"])
            else:
                (d / "demo.sh").write_text('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
                (d / "demo.py").write_text(s["demo"].lstrip("\n"))
            for name, text in s.get("files", {}).items():
                (d / name).write_text(text)
            os.chmod(d / "demo.sh", 0o755)
            print(sid, "own lines:", sum(own), "of", len(own), note)
        finally:
            subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt], capture_output=True)


main(sys.argv[1], sys.argv[2:])
