"""make_table.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json"""
import glob, json, os, re
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"]))
p = "/verif/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
