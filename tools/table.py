"""Rewrites the rows of the table of planted bugs of DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
rows = ""
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m.get("caught_by", m["property"]), m["needs"])
s = re.sub(r"(\| planted bug \|.*\n\|---.*\n)(\|.*\n)*", lambda k: k.group(1) + rows, s)
open(p, "w").write(s)
