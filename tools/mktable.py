"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LATE = "d02 d07 d16 d19 e01 e23 e24 e26 e29".split() + open(os.path.join(top, "tools/late.txt")).read().split()
rows = []
for d in sorted(os.listdir(top + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (top, d)))
    cell = lambda s: str(s).replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], cell(m["needs"]), cell(m["what_it_breaks"]),
                                           "yes, after strengthening" if d.split("-")[0] in LATE else "yes"))
p = top + "/DESIGN.md"
s = open(p).read()
s = s[:s.index("## Planted bugs")] + """## Planted bugs
Each is in `seeded/`; "caught" means by the quick check of its own property. "after strengthening": the check as it was
when the bug was written missed it; the generator or family was widened (never special-cased) until it was caught.

| bug | property | needs | breaks | caught |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(p, "w").write(s)
