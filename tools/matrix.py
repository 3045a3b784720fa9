"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json (id -> checks that report it)."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(here, "tools", "caught.json")))
rows = ["| planted bug | breaks | needs | reported by (quick) |", "|---|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m, i = json.load(open(os.path.join(d, "meta.json"))), os.path.basename(d)
    rows.append("| %s (%s) | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].strip().replace("\n", " "), m["needs"].strip().replace("\n", " "), ", ".join(caught.get(i, [])) or "**missed**"))
p = os.path.join(here, "DESIGN.md")
t = open(p).read().split("## 6. Matrix")[0].rstrip() + "\n\n## 6. Matrix\n\n" + "\n".join(rows) + "\n"
open(p, "w").write(t)
print(len(rows) - 2, "planted bugs")
