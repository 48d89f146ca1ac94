"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| bug | caught by | needs |", "| --- | --- | --- |"]
missed = {}
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    rows.append(f"| `{d}` | {m.get('caught_by', m['property'])} | {m['needs']} |")
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
table = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
s = s.replace("SEEDTABLE", table) if "SEEDTABLE" in s else re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: table, s, flags=re.S)
open(p, "w").write(s)
