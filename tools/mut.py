#!/usr/bin/env python3
"""Quick mutation runs: applies one textual change at a time to /repo, runs a check, undoes it.

usage: mut.py FILE   where FILE is a python file defining MUTS = [(check, file, old, new), ...]
"""
import os
import subprocess
import sys

ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True).stdout
for n, (chk, f, old, new) in enumerate(ns["MUTS"]):
    if only and str(n) not in only:
        continue
    p = os.path.join("/repo", f)
    s = open(p).read()
    if s.count(old) < 1:
        print(n, chk, "PATTERN NOT FOUND", f, repr(old)[:60])
        continue
    open(p, "w").write(s.replace(old, new, 1))
    try:
        for c in chk.split(","):
            r = subprocess.run([sys.executable, "/verif/mc/run.py", c], capture_output=True, text=True,
                               cwd="/verif", timeout=900)
            lines = [l for l in r.stdout.splitlines() if l]
            det = "caught" if r.returncode == 1 and "VIOLATION property=" + c in r.stdout else \
                "MISSED" if r.returncode == 0 else "ERROR %d" % r.returncode
            print(n, c, det, "|", repr(new)[:70], "|", (lines[-2] if len(lines) > 1 else "")[:150], flush=True)
            if det.startswith("ERROR"):
                print((r.stdout + r.stderr)[-800:])
    finally:
        open(p, "w").write(s)
subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
