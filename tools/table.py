"""Writes the table of planted bugs at the end of DESIGN.md. Not run by any check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in os.listdir(os.path.join(V, "seeded")):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    rows.append((m["property"], i, m["needs"], m.get("by", "")))
t = open(os.path.join(V, "DESIGN.md")).read()
mark = "<!-- table -->"
t = t.split(mark)[0].rstrip() + "\n\n" + mark + "\n| property, whose quick check catches it | bug | what it needs |\n|---|---|---|\n"
for p, i, n, b in sorted(rows):
    t += "| %s | `%s` | %s |\n" % (p, i, n.replace("|", "/").strip())
open(os.path.join(V, "DESIGN.md"), "w").write(t)
print(len(rows))
