"""Regenerates the table of planted bugs at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted -->"
# checks other than the property's own which were seen to catch a change as well, and changes no check catches
ALSO = {"b43-weak-absorbers": "C11"}
MISSED = {}
rows = ["| change | breaks | what it does | needs | caught by |", "|---|---|---|---|---|"]
for p in sorted([q for f in ("seeded", "seeded-more") for q in glob.glob(os.path.join(V, f, "*", "meta.json"))]):
    i = os.path.basename(os.path.dirname(p))
    m = json.load(open(p))
    by = MISSED.get(i) or ", ".join(filter(None, [m["property"], ALSO.get(i)]))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {by} |")
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0]
open(p, "w").write(s + MARK + "\n" + "\n".join(rows) + "\n")
print(len(rows) - 2, "planted")
