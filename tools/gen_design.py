"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "| planted bug | check | breaks | needs |"
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read().split(MARK)[0].rstrip("\n")
rows = [MARK, "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    cell = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append("| %s | %s %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), d["property"], d.get("status", "caught"), cell(d["what_it_breaks"]), cell(d["needs"])))
open(p, "w").write(s + "\n\n" + "\n".join(rows) + "\n")
