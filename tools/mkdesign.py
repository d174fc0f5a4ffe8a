"""Rewrites the sensitivity table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    by.setdefault(json.load(open(f))["property"], []).append(os.path.basename(os.path.dirname(f)))
p = here + "/DESIGN.md"
s = open(p).read()
mark = "<!-- seeded -->\n"
head = s[:s.index(mark) + len(mark)]
rows = ["", "| check | catches (of the changes planted against its property) |", "|---|---|"]
rows += ["| %s | %s |" % (k, ", ".join(x.split("-", 1)[1] for x in v)) for k, v in sorted(by.items())]
open(p, "w").write(head + "\n".join(rows) + "\n")
