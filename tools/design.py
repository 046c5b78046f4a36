#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md from the registry and the evidence of the last runs."""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/mc")
sys.path.insert(0, V + "/tools")
import checks  # noqa: E402
from oracles import ORACLE  # noqa: E402

BEGIN, END = "<!-- generated by tools/design.py -->", "<!-- end of generated part -->"


def human(n):
    for u, d in (("M", 1e6), ("k", 1e3)):
        if n >= d:
            return "%.3g %s" % (n / d, u)
    return str(n)


def main():
    props = {}
    for line in open(V + "/properties.jsonl"):
        p = json.loads(line)
        props[p["id"]] = p
    caught = {}
    for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
        d = json.load(open(m))
        caught.setdefault(d["property"], []).append(os.path.basename(os.path.dirname(m)))
    out = []
    for pid in sorted(props):
        p, c = props[pid], checks.CHECKS[pid]
        out += ["### %s — %s" % (pid, p["title"]), "", p["statement"], ""]
        out += ["- **Over** %s: %s" % (", ".join(p["quantifier"]["over"]), p["quantifier"]["text"])]
        out += ["- **Decided by** %s." % c["technique"]]
        out += ["- **Oracle.** " + ORACLE[pid]]
        ev = V + "/evidence/%s.json" % pid
        if os.path.exists(ev):
            e = json.load(open(ev))
            out += ["- **Explored** (quick):"]
            for s in e["coverage"]["scenarios"]:
                out += ["  - `%s` — %s: %s executions" % (s["name"], s["bounds"], human(s["executions"]))]
            out += ["- **Cost** (quick, one run on 8 cores): %.0f s plus building." % e["wall_s"]]
        out += ["- **Bounds.** " + c["note"]]
        out += ["- **Beyond tests.** " + p["why_tests_cant"]]
        if len(c["assumptions"]) > 1:
            out += ["- **Assumes** " + "; ".join(c["assumptions"][1:]) + "."]
        if pid in caught:
            out += ["- **Planted bugs**: " + ", ".join(caught[pid]) + "."]
        out += [""]
    s = open(V + "/DESIGN.md").read()
    i, j = s.index(BEGIN) + len(BEGIN), s.index(END)
    open(V + "/DESIGN.md", "w").write(s[:i] + "\n\n" + "\n".join(out) + "\n" + s[j:])


main()
