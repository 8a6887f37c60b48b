"""Prints the table of planted changes for DESIGN.md."""
import json, glob, os
late = {"c21-empty-content", "c35-extension-without-text", "c17-grandparent"}
late |= {os.path.basename(os.path.dirname(f)) for f in glob.glob("seeded/*/meta.json") if json.load(open(f)).get("first_missed")}
rows = ["| change | property | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
    by = m.get("caught_by", m["property"])
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {by}{' (after strengthening)' if i in late else ''} |")
s = open("DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- /seeds -->"
pre, rest = s.split(a); _, post = rest.split(b)
open("DESIGN.md", "w").write(pre + a + "\n".join(rows) + "\n" + b + post)
