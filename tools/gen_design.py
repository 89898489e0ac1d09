"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_history.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hist = json.load(open(V + "/tools/seed_history.json"))
rows = ["| planted bug | needs | caught by | history |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d); m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "/"), m["property"], hist.get(i, "caught when planted")))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- SEEDED -->.*<!-- /SEEDED -->", lambda _: "<!-- SEEDED -->\n" + "\n".join(rows) + "\n<!-- /SEEDED -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
