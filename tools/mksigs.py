"""Writes mc/sigs.json: the documented interface (parameter order and defaults) of every computation of the catalogue, read from
the repaired tree once and committed; the checks read the file, never the signatures of the tree under test."""
import inspect
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from mc import cat, engine  # noqa: E402
from mc.checks import iterate  # noqa: E402

out = {}
plain = {}
for e in cat.ENTRIES + iterate.ENTRIES:
    ps = inspect.signature(engine.impl(e.mod, e.fn)).parameters
    row = []
    for n, p in ps.items():
        if p.default is p.empty:
            row.append([n])
        else:
            d = p.default
            if hasattr(d, "item"):
                d = d.item()
            row.append([n, "nan" if isinstance(d, float) and d != d else d])
    out[e.id] = row
    no = [n for n, p in ps.items() if p.annotation is not p.empty and "ndarray" not in str(p.annotation).lower()]
    if no:
        plain[e.id] = no
with open(os.path.join(ROOT, "mc", "sigs.json"), "w") as f:
    json.dump(out, f, indent=0)
    f.write("\n")
with open(os.path.join(ROOT, "mc", "plain.json"), "w") as f:     # inputs documented as plain numbers, not arrays
    json.dump(plain, f, indent=0)
    f.write("\n")
print(len(out))
