"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json
import os

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
s = open("DESIGN.md").read()
head = "| id | property | what it needs | caught by |"
rows = [head, "|---|---|---|---|"]
for d in sorted(os.listdir("seeded")):
    m = json.load(open(f"seeded/{d}/meta.json"))
    rows.append(f"| {d} | {m['property']} | {m['needs'].strip()} | {m.get('caught', m['property'])} |")
open("DESIGN.md", "w").write(s[: s.index(head)] + "\n".join(rows) + "\n")
