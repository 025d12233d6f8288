"""Writes DESIGN.md: tools/design_head.md + one section per property + tools/design_tail.md + table of planted bugs."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from vbpbt import env  # noqa: E402

env.setup()
import table  # noqa: E402
from vbpbt.runner import QUICK_SCALE  # noqa: E402

out = [open(os.path.join(HERE, "tools", "design_head.md")).read(), "\n## Properties\n"]
for pid, title, statement, over, quant, why, mech, oracle, observe in table.P:
    p = importlib.import_module("vbpbt.props." + pid.lower()).PROPERTY
    out.append("### %s. %s\n" % (pid, title))
    out.append("* Generated: " + p.rule)
    out.append("* Oracle: " + oracle + ".")
    out.append("* Quantifier: " + quant + ".")
    out.append("* Sub-checks (cases quick / thorough): " + ", ".join("%s (%d / %d)" % (s.name, s.quick * QUICK_SCALE[pid], s.thorough) for s in p.subs) + ".")
    if p.assumptions:
        out.append("* Bounds: " + "; ".join(p.assumptions) + ".")
    out.append("* Beyond the tests: " + why + "\n")
tail = open(os.path.join(HERE, "tools", "design_tail.md")).read()
d = json.load(open(os.path.join(HERE, "known_findings.json")))
fs = [e for v in d.values() if isinstance(v, list) for e in v]
tail = tail.replace("@FIXES@", "\n".join("| %s | %s | %s |" % (e["property"], e["commit"], e["what"].split("did not hold: ")[-1].split("before it: ")[-1]) for e in fs))
out.append(tail)
f = os.path.join(HERE, "tools", "design_seeded.md")
if os.path.exists(f):
    out.append(open(f).read())
with open(os.path.join(HERE, "DESIGN.md"), "w") as g:
    g.write("\n".join(out))
