"""Regenerates DESIGN.md from design.md, the registry of sub-checks and the planted bugs.  Run: python3 tools/design.py"""

import glob
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import bootstrap  # noqa: E402

bootstrap.setup()
bootstrap.import_glass()
for f in sorted(glob.glob(os.path.join(HERE, "vf/checks/c[0-9]*.py"))):
    importlib.import_module("vf.checks." + os.path.basename(f)[:-3])
from vf.core import REGISTRY  # noqa: E402

props = {p["id"]: p for p in map(json.loads, open(os.path.join(HERE, "properties.jsonl")))}


def table(i):
    out = ["", "| sub-check | decides | non-trivial if | quick cases |", "| --- | --- | --- | --- |"]
    seen = set()
    for s in REGISTRY[i]:
        d = " ".join(s.doc.split())
        d = "as above" if d in seen else d
        seen.add(d)
        out.append(f"| {s.name} | {d} | {s.rule} | {s.quick} |")
    return "\n".join(out)


text = open(os.path.join(HERE, "tools/design.md")).read()
parts = re.split(r"^<<(C\d\d)>>\n", text, flags=re.M)
out = [parts[0]]
for i, body in zip(parts[1::2], parts[2::2]):
    para, _, rest = body.partition("\n\n")
    out.append(f"### {i}: {props[i]['title']}\n\n{para}\n{table(i)}\n\n{rest}")
text = "".join(out)
fixed = [l.split(None, 3) for l in open(os.path.join(HERE, "known_findings.txt")) if l.startswith("fixed:")]
text = text.replace("<<FIXED>>", "\n".join(f"* {p.split('=')[1]}, {c}: {w.strip()}" for _, p, c, w in fixed))
caught = json.load(open(os.path.join(HERE, "tools/caught.json"))) if os.path.exists(os.path.join(HERE, "tools/caught.json")) else {}
rows = ["| planted bug | property | needs | caught by quick check |", "| --- | --- | --- | --- |"]
for m in sorted(glob.glob(os.path.join(HERE, "seeded/*/meta.json"))):
    d, k = json.load(open(m)), os.path.basename(os.path.dirname(m))
    rows.append(f"| {k} | {d['property']} | {d['needs']} | {caught.get(k, 'not run yet')} |")
text = text.replace("<<SEEDED>>", "\n".join(rows))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write(text)
missing = [i for i in props if f"### {i}:" not in text]
print("DESIGN.md", len(text.splitlines()), "lines; missing:", missing)
