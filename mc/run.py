#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo, explores, reports.

usage: run.py PROPERTY [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored.
Exit 1 and a line "VIOLATION property=<id> replay=<path>": it is broken.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402
import checks as C  # noqa: E402

VERIF = B.VERIF


def load_known(pid):
    """known_findings.txt: '<property> <signature> | <what fails>' for open findings and
    'fixed: property=<id> <commit> <what failed>' for repaired ones (which suppress nothing)."""
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                head, _, text = line.partition("|")
                p, _, sig = head.strip().partition(" ")
                if p == pid:
                    out.append((sig.strip(), text.strip()))
    except OSError:
        pass
    return out


def env_for(mode):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("exitcode=86:detect_leaks=0:allocator_may_return_null=1:"
                         "quarantine_size_mb=8:detect_stack_use_after_return=0:"
                         "alloc_dealloc_mismatch=0")
    return e


def spec_args(b):
    kw = {k: v for k, v in b.items() if k not in ("budget", "jobs", "hang", "scenarios")}
    return kw


def build_all(pid):
    bins = []
    for b in C.CHECKS[pid]["bins"]:
        bins.append((b, B.build(**spec_args(b))))
    return bins


def make_scratch():
    """A directory for the files of the code under test; passable for unprivileged users."""
    shm = "/dev/shm"
    d = tempfile.mkdtemp(prefix="mcwork-", dir=shm if os.path.isdir(shm) and os.access(shm, os.W_OK) else None)
    os.chmod(d, 0o711)
    return d


def run_binary(path, b, tier, outdir, known, replay=None, scenario=None):
    res = os.path.join(outdir, os.path.basename(path) + ".json")
    kf = os.path.join(outdir, "known.txt")
    with open(kf, "w") as f:
        f.write("\n".join(known) + ("\n" if known else ""))
    budget = b.get("budget", {"quick": 420, "thorough": 3 * 3600})[tier] \
        if isinstance(b.get("budget", {}), dict) and b.get("budget") else \
        {"quick": 420, "thorough": 3 * 3600}[tier]
    cmd = [path, "--out", res, "--replay-dir", outdir, "--jobs", str(b.get("jobs", B.JOBS)),
           "--budget", str(budget), "--known", kf, "--hang", str(b.get("hang", 90))]
    if tier == "thorough":
        cmd.append("--thorough")
    if scenario or b.get("scenarios"):
        cmd += ["--scenario", scenario or ",".join(b["scenarios"])]
    scratch = make_scratch()
    try:
        r = subprocess.run(cmd, env=dict(env_for(b.get("mode", "asan")), MC_SCRATCH=scratch),
                           cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    try:
        with open(res) as f:
            data = json.load(f)
    except (OSError, ValueError):
        data = None
    return r.returncode, data, r.stdout


def do_replay(path, b, replay, timeout):
    scratch = make_scratch()
    try:
        try:
            r = subprocess.run([path, "--replay", replay],
                               env=dict(env_for(b.get("mode", "asan")), MC_SCRATCH=scratch),
                               cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired as e:
            return True, "execution does not terminate within %ds\n%s" % (timeout, (e.stdout or b"")[-2000:])
        return r.returncode != 0, r.stdout
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--scenario")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    t0 = time.time()
    chk = C.CHECKS[pid]
    outdir = os.path.join(VERIF, "out", pid)
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for f in os.listdir(outdir):
        if not a.replay and (f.endswith(".replay") or f.endswith(".json") or f.endswith(".log")):
            os.unlink(os.path.join(outdir, f))
    try:
        bins = build_all(pid)
    except B.BuildError as e:
        print("BUILD FAILED for the check of %s" % pid)
        print(e)
        sys.exit(2)
    if a.build_only:
        return
    tb = time.time() - t0
    if a.replay:
        with open(a.replay) as f:
            first = f.read()
        for b, path in bins:
            if ("# binary " + b["name"]) in first or len(bins) == 1:
                _, out = do_replay(path, b, a.replay, 600)
                print(out)
        return

    known = load_known(pid)
    agg = dict(executions=0, pruned=0, steps=0, choices=0, nontrivial=0, validated=0, states=0,
               max_depth=0)
    scen, outcomes, samples, known_hit = [], [], [], set()
    capped = False
    violation = None
    for b, path in bins:
        for attempt in range(3):
            rc, data, out = run_binary(path, b, tier, outdir, [k for k, _ in known],
                                       scenario=a.scenario)
            with open(os.path.join(outdir, b["name"] + ".log"), "w") as f:
                f.write(out)
            if data is None or data.get("infra"):
                print("harness %s gave no result (rc=%s)\n%s" % (b["name"], rc, out[-3000:]))
                if attempt < 2:
                    continue
                if data is None:
                    sys.exit(2)
                # the same choices keep leading to different executions
                rp = os.path.join(outdir, "nondeterministic.replay")
                with open(rp, "w") as f:
                    f.write("# the execution is not a function of the choices\n" + out[-3000:])
                violation = dict(sig="nondeterministic", scenario="?", replay=rp,
                                 msg="the same inputs and schedule give different executions")
                break
            v = data.get("violation")
            if not v:
                break
            with open(v["replay"], "a") as f:
                f.write("# binary %s\n# rerun: mc/run.py %s --replay <this file>\n" % (b["name"], pid))
            ok = False
            for _ in range(3):
                ok, rout = do_replay(path, b, v["replay"], 120)
                if ok:
                    break
            if ok:
                with open(v["replay"], "a") as f:
                    f.write("".join("# " + l + "\n" for l in rout[-6000:].splitlines()))
                violation = v
                break
            print("note: %s in %s did not reproduce on replay; exploring again"
                  % (v["sig"], v["scenario"]))
        else:
            # three explorations each ended in something that does not replay: the scenario is not
            # deterministic on this tree, which the unchanged tree never is
            violation = v
        for k in agg:
            if k == "max_depth":
                agg[k] = max(agg[k], data.get(k, 0))
            else:
                agg[k] += data.get(k, 0)
        capped = capped or data.get("capped", False)
        scen += [dict(s, binary=b["name"]) for s in data.get("scenarios", [])]
        outcomes += data.get("outcomes", [])
        samples += data.get("samples", [])
        known_hit |= set(data.get("known", []))
        if violation:
            break

    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": chk.get("level", "model_checking"),
        "coverage": {
            "states": agg["states"],
            "transitions": agg["steps"] + agg["choices"],
            "traces_validated_against_impl": agg["executions"],
            "nontrivial_executions": agg["nontrivial"],
            "abandoned_by_assumption": agg["pruned"],
            "longest_choice_sequence": agg["max_depth"],
            "scenarios": scen,
            "distinct_outcomes": sorted(set(outcomes))[:60],
            "samples": samples[:12],
            "exhaustive": (not capped) and violation is None,
            "how_validated": "every explored trace is an execution of the code built from /repo, "
                             "compared step by step with the reference model in the harness",
        },
        "assumptions": chk.get("assumptions", []),
        "wall_s": round(time.time() - t0, 3),
        "build_s": round(tb, 3),
        "violations": 1 if violation else 0,
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for sig, text in known:
        if sig in known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, sig, text))
    if violation:
        print("%s in scenario %s: %s" % (violation["sig"], violation["scenario"], violation["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, violation["replay"]))
        sys.exit(1)
    print("%s %s: held on %d executions (%d states, %d transitions)%s in %.1fs (build %.1fs)" % (
        pid, tier, agg["executions"], agg["states"], agg["steps"] + agg["choices"],
        "" if not capped else " [capped]", time.time() - t0, tb))


if __name__ == "__main__":
    main()
