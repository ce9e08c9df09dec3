"""Writes the table of planted bugs (section 7 of DESIGN.md) from seeded/*/meta.json."""
import glob
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# first missed by the check of their property, caught since it was strengthened
LATE = {
    "H02-weights32", "H04-int-mids", "T02-cancel", "T02-kept-matrix", "M04-sum-zero", "M05-total", "M07-large",
    "Y03-absolute", "U01-split-tail", "U01-corr-clip", "L02-reset-error", "F05-rounded",
}
extra = os.path.join(ROOT, "tools", "late.txt")
if os.path.exists(extra):
    LATE |= set(open(extra).read().split())
rows = {}
for f in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.setdefault(d["property"], []).append((b, d))
out = ["| change | what it breaks | needs |", "|---|---|---|"]
for p in rows:
    for b, d in rows[p]:
        out.append("| %s%s | %s | %s |" % (b, " *" if b in LATE else "", d["what_it_breaks"], d["needs"]))
text = open(ROOT + "/DESIGN.md").read()
a, z = "<!-- planted -->\n", "<!-- /planted -->"
text = re.sub(re.escape(a) + ".*?" + re.escape(z), lambda _: a + "\n" + "\n".join(out) + "\n\n" + z, text, flags=re.S)
open(ROOT + "/DESIGN.md", "w").write(text)
print(sum(len(r) for r in rows.values()), "planted bugs")
