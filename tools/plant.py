#!/usr/bin/env python3
"""Confirms planted bugs: tools/plant.py [--no-check] ID...

For each /verif/seeded/<ID>: the demo passes on the unchanged tree; with the patch the tree builds,
the tests pass and the demo fails; then the property's check is run on the patched tree. The patch is
undone afterwards."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def main():
    args = sys.argv[1:]
    nocheck = "--no-check" in args
    nodemo = "--only-check" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    assert sh("git -C /repo status --porcelain").stdout.strip() == "", "dirty /repo"
    if not nodemo:
        assert sh("bash /opt/vp/build.sh").returncode == 0
    base = {}
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        if not nodemo:
            r = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
            base[i] = r.returncode
            if r.returncode != 0:
                print(i, "demo fails on the unchanged tree\n" + r.stdout[-1500:])
    for i in ids:
        d = "%s/seeded/%s" % (V, i)
        meta = json.load(open(d + "/meta.json"))
        r = sh("git -C /repo apply %s/patch.diff" % d)
        if r.returncode != 0:
            print(i, "patch does not apply", r.stdout)
            continue
        try:
            res = []
            if not nodemo:
                b = sh("bash /opt/vp/build.sh")
                if b.returncode != 0:
                    print(i, "does not build\n" + b.stdout[-3000:])
                    continue
                t = sh("bash /opt/vp/test.sh /tmp/plant.json")
                res.append(t.stdout.strip().splitlines()[-1])
                dm = sh("timeout 300 bash %s/demo.sh" % d, cwd="/repo")
                res.append("demo %d->%d" % (base[i], dm.returncode))
            if not nocheck:
                c = sh("python3 mc/run.py %s --tier quick" % meta["property"], cwd=V)
                res.append("check exit %d" % c.returncode)
                res.append(" ".join(c.stdout.strip().splitlines()[-2:])[:230])
            print(i, meta["property"], "; ".join(res), flush=True)
        finally:
            sh("git -C /repo checkout -- .")
    if not nodemo:
        sh("bash /opt/vp/build.sh")


main()
