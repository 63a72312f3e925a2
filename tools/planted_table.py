"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | needs | caught by |", "| --- | --- | --- |"]
for p in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(p))
    rows.append(f"| {p.split('/')[-2]} | {d['needs']} | {d['property']} |")
s = open(here + "/DESIGN.md").read()
t = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- end planted -->"
s = s.replace("\nPLANTED\n", "\n" + t + "\n") if "\nPLANTED\n" in s else re.sub(
    r"<!-- planted -->.*<!-- end planted -->", lambda m: t, s, flags=re.S)
open(here + "/DESIGN.md", "w").write(s)
