#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the tables below (run by hand, output is committed)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from lib import props
A = "src/api/"; C = "src/client/"
L = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, tech=None, note=None):
    L.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)), tech, note))
exec(open(V + "/tools/properties_src.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p, _, _ in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
NA = {}
checks, na = [], []
for p, tech, note in L:
    i = p["id"]
    if i in props.P:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i, evidence_file="evidence/%s.json" % i,
            technique=tech or "runtime oracle over generated executions under ASan+UBSan", level="exploration",
            level_note=note or "Every explored execution is compared to an independent double-precision reference and watched by ASan/UBSan; holds for the generated inputs only. Trusts the reference, libm and the sanitizers."))
    else:
        na.append(dict(property=i, reason=NA.get(i, "in scope for runtime monitoring, but its check is not built yet")))
json.dump(dict(version=1, setup_cmd="python3 tools/setup.py",
    hooks=dict(guard="GRIDPP_VERIF", enable="the checks compile /repo's sources with -DGRIDPP_VERIF; no hook uses it so far", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="check.py <id> <tier>; replay.py <id> <case> <seed>; known findings and repairs in known-findings.txt"), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
