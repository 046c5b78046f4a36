#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY 'needs' 'what' < spec

spec: python literal dict(edits=[(file, old, new)...], demo='c++ source'). Writes seeded/ID."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, needs, what, edits, demo):
    d = "%s/seeded/%s" % (V, sid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (sid, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True,
                   stderr=subprocess.DEVNULL)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(open(V + "/tools/demo_template.sh").read())
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"),
              indent=1)
