"""rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json and tools/seeded_results.json"""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read().split("<!-- seeded -->")[0] + "<!-- seeded -->\n| change | property | needs | caught by |\n|---|---|---|---|\n"
res = {}
rp = os.path.join(ROOT, "tools", "seeded_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    s += "| %s: %s | %s | %s | %s |\n" % (i, m["what_it_breaks"], m["property"], m["needs"], res.get(i, "?"))
open(p, "w").write(s)
