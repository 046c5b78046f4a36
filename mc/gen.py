#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks as C  # noqa: E402
import props as P  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for pid in sorted(P.PROPS):
        f.write(json.dumps(P.PROPS[pid]) + "\n")
man = dict(
    version=1,
    setup_cmd="python3 mc/setup.py",
    hooks=dict(guard="none", enable="no hooks: checks build /repo's sources unmodified", source_commits=[]),
    checks=[dict(property=pid, quick_cmd="python3 mc/run.py %s --tier quick" % pid,
                 thorough_cmd="python3 mc/run.py %s --tier thorough" % pid,
                 evidence_file="evidence/%s.json" % pid,
                 technique=c["technique"], level=c["level"], level_note=c["note"])
            for pid, c in sorted(C.CHECKS.items())],
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(C.NOT_APPLICABLE.items())],
    notes="Every check explores the code built from /repo itself; see DESIGN.md.",
)
for p in P.PROPS.values():
    for a in p["anchors"]["files"]:
        assert os.path.exists(os.path.join("/repo", a)), (p["id"], a)
missing = set(P.PROPS) - set(C.CHECKS) - set(C.NOT_APPLICABLE)
extra = (set(C.CHECKS) | set(C.NOT_APPLICABLE)) - set(P.PROPS)
assert not missing and not extra, (missing, extra)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(man["checks"]), "checks")
