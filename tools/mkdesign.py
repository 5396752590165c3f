"""DESIGN.md = tools/design_head.md with the table of planted bugs; tools/caught.json holds what plant.py reported"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(V + "/tools/caught.json"))
rows = ["| id | what it breaks | caught by |", "|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), caught.get(i, "not run yet")))
s = open(V + "/tools/design_head.md").read()
open(V + "/DESIGN.md", "w").write(s.replace("@@SEEDS@@", "\n".join(rows)))
