"""Writes DESIGN.md: the text of tools/design.md with the table of planted bugs filled in."""
import json, os, textwrap
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['needs'].rstrip('.')} | {m['property']} |")
t = open(R + "/tools/design.md").read()
t = t.replace("@SEEDS@", "| planted bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows))
t = t.replace("@NSEEDS@", str(len(rows))).replace("@FIXED@", str(sum(l.startswith("fixed:") for l in open(R + "/known-findings.txt"))))
open(R + "/DESIGN.md", "w").write(t)
