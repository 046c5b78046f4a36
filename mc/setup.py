#!/usr/bin/env python3
"""Prebuilds the harnesses (the checks do it themselves when the cache is cold)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import checks as C  # noqa: E402
from run import spec_args  # noqa: E402

seen = set()
for pid, c in sorted(C.CHECKS.items()):
    for b in c["bins"]:
        if b["name"] in seen:
            continue
        seen.add(b["name"])
        try:
            B.build(**spec_args(b))
        except B.BuildError as e:
            print("setup: %s: %s" % (b["name"], str(e)[:500]))
