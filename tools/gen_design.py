#!/usr/bin/env python3
"""Fill the generated tables of DESIGN.md: coverage of the last run (evidence/*.json) and the planted bugs (seeded/*/meta.json)."""
import json, glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
cov = ["| property | programs | states | transitions (operations compared) | traces executed | build + explore |", "|---|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/evidence/C*.json")):
    e = json.load(open(f)); c = e["coverage"]
    cov.append("| %s | %d | %s%s | %s | %s | %.0f s + %.0f s |" % (e["property"], len(c.get("programs", [])), ">= " if c.get("state_count_is_lower_bound") else "", format(c["states"], ","), format(c["transitions"], ","), format(c["traces_validated_against_impl"], ","), c.get("build_s", 0), c.get("explore_s", 0)))
cat = ["| planted bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    cl = lambda s: " ".join(str(s).split()).replace("|", "\\|")
    cat.append("| %s | %s | %s | %s |" % (i, cl(m["what_it_breaks"]), cl(m["needs"]), m["property"]))
def put(d, tag, rows):
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, "\n".join(rows), tag), d, flags=re.S)
if "--coverage" in sys.argv: d = put(d, "coverage", cov)
d = put(d, "catches", cat)
open(V + "/DESIGN.md", "w").write(d)
