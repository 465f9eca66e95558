"""Writes the table of planted bugs of DESIGN.md (between the two marks) from seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | manifests with | what breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], cell(m["needs"]), cell(m["what_it_breaks"])))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", s, flags=re.S)
open(p, "w").write(s)
