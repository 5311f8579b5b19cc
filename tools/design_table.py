"""refresh the table of planted changes at the end of DESIGN.md"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = V + "/DESIGN.md"
s = open(p).read()
h = "| Change | Property | Breaks |\n|---|---|---|\n"
i = s.index(h) + len(h)
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"].replace("|", "/")))
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
