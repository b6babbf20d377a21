"""Writes mc/monotone.json from the reference model:  python3 tools/mktable.py"""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import engine  # noqa: E402
from mc.checks import relate2  # noqa: E402
t = relate2.make_table()
with open(relate2.TABLE, "w") as f:
    f.write("{\n" + ",\n".join(' %s: %s' % (json.dumps(k), json.dumps(v)) for k, v in t.items()) + "\n}\n")
print(len(t), "computations,", sum(len(v) for v in t.values()), "directions")
