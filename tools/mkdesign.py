"""Writes the table of planted bugs into DESIGN.md (between the markers) from seeded/*/meta.json and tools/seednotes.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(f"{V}/tools/seednotes.json"))
rows = ["| bug | property | needs | caught by | history |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    n = notes.get(i, {})
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {n.get('by', m['property'] + ' quick')} | {n.get('note', '')} |")
p = f"{V}/DESIGN.md"
s = open(p).read()
t = "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->"
s = s.replace("@@TABLE@@", t) if "@@TABLE@@" in s else re.sub(r"<!-- seeded -->.*<!-- /seeded -->", lambda m: t, s, flags=re.S)
open(p, "w").write(s)
