"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(f"{ROOT}/seeded")):
    m = json.load(open(f"{ROOT}/seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = f"{ROOT}/DESIGN.md"
s = open(p).read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->\n"
head = s[:s.index(a) + len(a)]
tail = s[s.index(b):]
open(p, "w").write(head + "| planted bug | breaks | needs | caught by the check of |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + tail)
print(len(rows))
