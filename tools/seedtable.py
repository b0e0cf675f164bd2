"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| {} | {} | {} | {} |".format(f.split("/")[-2], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
t = "<!-- seeds -->\n| seed | what it breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
