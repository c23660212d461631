"""tools/gen_design.py: the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for i in sorted(os.listdir(f"{H}/seeded")):
    m = json.load(open(f"{H}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['needs']} |")
p = f"{H}/DESIGN.md"
s = open(p).read()
a, b = "<!-- table -->", "<!-- /table -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
