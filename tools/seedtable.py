"""refreshes the table of planted bugs in DESIGN.md"""
import json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = ["| id | needs | breaks |", "|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % d)); rows.append("| %s | %s | %s |" % (d, m["needs"], m["what_it_breaks"]))
s = open("DESIGN.md").read()
a, b = s.index("<!-- seed table"), s.index("<!-- end -->")
open("DESIGN.md", "w").write(s[:a] + "<!-- seed table: tools/seedtable.py -->\n" + "\n".join(rows) + "\n" + s[b:])
