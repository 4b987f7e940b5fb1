"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    cut = lambda s: (s if len(s) <= 150 else s[:147].rsplit(" ", 1)[0] + " ...").replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (d, cut(m["what_it_breaks"]), cut(m["needs"]), m["property"]))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->\n"
t = a + "| planted bug | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + b
if a in s:
    s = s[:s.index(a)] + t + s[s.index(b) + len(b):]
else:
    s = s.replace("SEEDTABLE\n", t) if "SEEDTABLE\n" in s else s.replace("SEEDTABLE", t)
open(V + "/DESIGN.md", "w").write(s)
