"""Fills the table of planted bugs into DESIGN.md."""
import glob
import json
import os
import re
import sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "DESIGN.md")
rows = ["| Planted bug | Needs | Caught by |", "|---|---|---|"]
for d in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)),
                                      m["needs"].replace("|", "\\|"),
                                      m["property"]))
s = open(path).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _:
           "<!-- bugs -->\n%s\n<!-- /bugs -->" % "\n".join(rows), s, flags=re.S)
open(path, "w").write(s)
