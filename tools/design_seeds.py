"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- SEEDS -->", "| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"] + m.get("note", ""), m["needs"].replace("|", "\\|")))
rows.append("<!-- /SEEDS -->")
p = V + "/DESIGN.md"
t = open(p).read()
t = re.sub(r"<!-- SEEDS -->(.*?<!-- /SEEDS -->)?", lambda _: "\n".join(rows), t, count=1, flags=re.S)
open(p, "w").write(t)
