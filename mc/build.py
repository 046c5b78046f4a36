"""Builds harness binaries from /repo's current working tree.

Objects are cached by content (command line + content of every /repo and /verif file that went
into them), never by time stamp, so a binary always reflects the tree as it is now.
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
CACHE = os.environ.get("MC_CACHE", os.path.join(VERIF, ".cache"))
SRC = os.path.join(REPO, "src")
JOBS = int(os.environ.get("MC_JOBS", "8"))

DEFS = ["-DPAIMON_ENABLE_ORC", "-DPAIMON_ENABLE_AVRO", "-DSNAPPY_CODEC_AVAILABLE",
        "-DZSTD_CODEC_AVAILABLE", "-DRAPIDJSON_HAS_STDSTRING"]
INCS = ["-I" + os.path.join(REPO, p) for p in
        ("src", "include", "test", "third_party/roaring_bitmap", "third_party/xxhash")]
INCS += ["-I" + os.path.join(VERIF, "mc/include"), "-I" + os.path.join(VERIF, "harness")]

# Compilation modes.
#   asan  : memory errors become process exits, which the engine reports as violations
#   plain : no sanitizer (fast enumeration)
#   sched : every memory access and atomic is instrumented; the runtime in mc/src/sched.cpp is the
#           scheduler and the race detector
MODES = {
    "asan": dict(cflags=["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer"],
                 ldflags=["-fsanitize=address"], rt=[]),
    "plain": dict(cflags=["-O1", "-g"], ldflags=[], rt=[]),
    "sched": dict(cflags=["-O1", "-g", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=0"],
                  ldflags=["-rdynamic"], rt=["mc/src/sched.cpp"]),
}


class BuildError(Exception):
    pass


_hash_memo = {}
_lock = threading.Lock()


def file_hash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h


def _tracked(path):
    return path.startswith(REPO + "/") or path.startswith(VERIF + "/")


def _parse_deps(text):
    text = text.replace("\\\n", " ")
    _, _, rest = text.partition(":")
    return [os.path.normpath(p) for p in rest.split()]


def compile_one(src, flags, log):
    """Returns (object path, deps)."""
    cxx = "gcc" if src.endswith(".c") else "g++"
    std = ["-std=gnu11"] if src.endswith(".c") else ["-std=c++17"]
    cmd = [cxx] + std + flags + ["-c", src]
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()[:32]
    mpath = os.path.join(CACHE, "obj", key + ".json")
    try:
        with open(mpath) as f:
            man = json.load(f)
        for deps, obj in man["entries"]:
            if all(file_hash(p) == h for p, h in deps.items()):
                o = os.path.join(CACHE, "obj", obj)
                if os.path.exists(o):
                    return o, list(deps)
    except (OSError, ValueError, KeyError):
        man = {"entries": []}
    tmp = os.path.join(CACHE, "obj", f"{key}.{os.getpid()}.{threading.get_ident()}")
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MD", "-MF", tmp + ".d"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"compiling {src} failed:\n{' '.join(cmd)}\n{r.stdout[-6000:]}")
    with open(tmp + ".d") as f:
        deps = {p: file_hash(p) for p in _parse_deps(f.read()) if _tracked(p)}
    os.unlink(tmp + ".d")
    content = hashlib.sha256((key + json.dumps(sorted(deps.items()))).encode()).hexdigest()[:32]
    obj = content + ".o"
    os.replace(tmp + ".o", os.path.join(CACHE, "obj", obj))
    with _lock:
        man["entries"] = ([[deps, obj]] + man["entries"])[:6]
        with open(mpath + ".tmp%d" % threading.get_ident(), "w") as f:
            json.dump(man, f)
        os.replace(mpath + ".tmp%d" % threading.get_ident(), mpath)
    return os.path.join(CACHE, "obj", obj), list(deps)


# ---- which repository sources does a harness need ------------------------------------------

_inc_re = re.compile(r'^\s*#\s*include\s*[<"]([^">]+)[">]', re.M)
_inc_memo = {}


def includes_of(path):
    if path not in _inc_memo:
        try:
            with open(path, errors="replace") as f:
                _inc_memo[path] = _inc_re.findall(f.read())
        except OSError:
            _inc_memo[path] = []
    return _inc_memo[path]


def resolve_include(inc, frm):
    for base in (os.path.dirname(frm), os.path.join(REPO, "src"), os.path.join(REPO, "include"),
                 os.path.join(VERIF, "harness"), os.path.join(VERIF, "mc/include")):
        p = os.path.normpath(os.path.join(base, inc))
        if os.path.isfile(p):
            return p
    return None


EXTERNAL_PREFIXES = ("orc/", "avro/", "parquet/", "lance", "lumina", "jindo", "gtest/", "gmock/")
_closure_memo = {}


def header_closure(path):
    """All repository / harness files a file includes, transitively, and the external includes."""
    if path in _closure_memo:
        return _closure_memo[path]
    seen, ext, todo = {path}, set(), [path]
    while todo:
        f = todo.pop()
        for inc in includes_of(f):
            p = resolve_include(inc, f)
            if p is None:
                ext.add(inc)
            elif p not in seen:
                seen.add(p)
                todo.append(p)
    _closure_memo[path] = (seen, ext)
    return seen, ext


def repo_sources(roots):
    out = []
    for r in roots:
        for p in glob.glob(os.path.join(SRC, "paimon", r, "**", "*.cpp"), recursive=True):
            b = os.path.basename(p)
            if b.endswith("_test.cpp") or "/test_" in p or b.endswith("_benchmark.cpp"):
                continue
            out.append(os.path.normpath(p))
    return sorted(out)


def usable(path, allow_arrow):
    _, ext = header_closure(path)
    for e in ext:
        if e.startswith(EXTERNAL_PREFIXES):
            return False
        if e.startswith(("arrow/", "glog/")) and not allow_arrow:
            return False
    return True


def demand(harness, pool_srcs):
    """Sources whose headers the harness (transitively through sources) includes."""
    by_stem = {}
    for p in pool_srcs:
        by_stem.setdefault(os.path.splitext(os.path.basename(p))[0], []).append(p)
    need, todo = [], list(harness)
    seen_src = set(todo)
    while todo:
        f = todo.pop()
        hdrs, _ = header_closure(f)
        for h in hdrs:
            if not h.startswith(REPO + "/"):
                continue
            stem = os.path.splitext(os.path.basename(h))[0]
            for cand in by_stem.get(stem, []):
                if cand not in seen_src:
                    seen_src.add(cand)
                    need.append(cand)
                    todo.append(cand)
    return need


def third_party():
    out = []
    for d in ("third_party/roaring_bitmap", "third_party/xxhash"):
        for ext in ("*.c", "*.cc", "*.cpp"):
            out += glob.glob(os.path.join(REPO, d, ext))
    return sorted(os.path.normpath(p) for p in out)


def build(name, harness, mode="asan", roots=("common", "core", "fs/local"), allow_arrow=False,
          extra_src=(), cflags=(), ldflags=(), libs=("-lfmt", "-ltbb", "-lpthread"), shim=False,
          repo_flags=(), everything=False, skip=(), only=None, private=False, first_inc=()):
    """Builds a harness binary and returns its path."""
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    os.makedirs(os.path.join(CACHE, "bin"), exist_ok=True)
    m = MODES[mode]
    harness = [os.path.join(VERIF, h) for h in harness]
    extra = [os.path.join(VERIF, h) for h in extra_src]
    incs = list(INCS)
    if shim:
        incs = ["-I" + os.path.join(VERIF, "shim")] + incs
    incs = ["-I" + os.path.join(VERIF, d) for d in first_inc] + incs
    base = m["cflags"] + ["-fPIC", "-pipe"] + DEFS + incs + list(cflags)
    engine = [os.path.join(VERIF, p) for p in ("mc/src/mc.cpp", "mc/src/raw.cpp")]
    rt = [os.path.join(VERIF, p) for p in m["rt"]]
    # the engine itself is never instrumented
    eng_flags = ["-O2", "-g", "-fPIC"] + incs
    if mode == "asan":
        eng_flags = ["-O1", "-g", "-fPIC", "-fsanitize=address"] + incs
    pool_srcs = [p for p in repo_sources(roots) if usable(p, allow_arrow)]
    skip_abs = {os.path.join(SRC, "paimon", s) for s in skip}
    pool_srcs = [p for p in pool_srcs if p not in skip_abs]

    def attempt(srcs):
        jobs = []
        for s in harness + extra:
            fl = list(base)
            if private:
                fl.append("-fno-access-control")
            jobs.append((s, fl))
        for s in engine:
            jobs.append((s, eng_flags))
        for s in rt:
            jobs.append((s, ["-O2", "-g", "-fPIC"] + incs))
        for s in srcs:
            jobs.append((s, base + list(repo_flags)))
        exts = set()
        for s in harness + extra + srcs:
            exts |= header_closure(s)[1]
        for s in third_party():
            key = "roaring" if "roaring" in s else "xxhash"
            if not any(key in e for e in exts):
                continue
            fl = [f for f in base if not f.startswith(("-fno-access", "-fsanitize=thread"))]
            fl = [f for f in fl if f not in ("--param", "tsan-distinguish-volatile=0")]
            jobs.append((s, fl + ["-w"]))
        direct = set(harness + extra)
        late = set(engine + rt)
        objs, lib, last = [], [], []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = [(s, ex.submit(compile_one, s, fl, None)) for s, fl in jobs]
            errs = []
            for s, f in futs:
                try:
                    o, _ = f.result()
                    (objs if s in direct else last if s in late else lib).append(o)
                except BuildError as e:
                    errs.append(str(e))
            if errs:
                raise BuildError("\n".join(errs[:3]))
        link_cmd = ["g++"] + objs + ["-Wl,--start-group", "@LIB@", "-Wl,--end-group"] + \
            last + m["ldflags"] + list(ldflags) + list(libs) + ["-ldl"]
        key = hashlib.sha256(json.dumps([link_cmd, sorted(lib)]).encode()).hexdigest()[:24]
        out = os.path.join(CACHE, "bin", f"{name}-{key}")
        if os.path.exists(out):
            return out, None
        ar = out + f".{os.getpid()}.a"
        subprocess.run(["ar", "qcs", "--thin", ar] + lib if lib else ["ar", "qcs", ar], check=True,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        tmp = out + f".{os.getpid()}.tmp"
        cmd = [c if c != "@LIB@" else ar for c in link_cmd] + ["-o", tmp]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        os.unlink(ar)
        if r.returncode != 0:
            return None, r.stdout[-5000:]
        os.replace(tmp, out)
        return out, None

    if everything:
        srcs = pool_srcs
    else:
        srcs = demand(harness + extra, pool_srcs)
    out, err = attempt(srcs)
    if out is None and not everything:
        # a definition moved to a file no header names: take everything
        out, err2 = attempt(pool_srcs)
        err = err + "\n" + (err2 or "")
    if out is None:
        raise BuildError("linking %s failed:\n%s" % (name, err))
    return out


if __name__ == "__main__":
    print(len([p for p in repo_sources(("common", "core", "fs/local")) if usable(p, False)]))
