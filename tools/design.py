"""Puts the table of planted bugs into DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | needs | breaks | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % d))
    caught = m["property"] if not os.path.exists(V + "/seeded/%s/MISSED" % d) else "missed"
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"], caught))
p = V + "/DESIGN.md"
s = open(p).read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->\n"
s = s.replace("@@SEEDED@@", t) if "@@SEEDED@@" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->\n", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
