"""rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json and tools/seed/caught.json (what the runs of tools/seed/plantns.sh showed)"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(R + "/tools/seed/caught.json"))
rows = ["| id | property | what it breaks | needs | caught by |", "| --- | --- | --- | --- | --- |"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (R, d)))
    rows.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], ", ".join(C.get(d, [])) or "not caught"))
s = open(R + "/DESIGN.md").read()
s = re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n%s\n<!-- /seeded -->" % "\n".join(rows), s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
