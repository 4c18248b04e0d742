#!/usr/bin/env python3
"""Builds build/e57check from /repo's working tree and /verif/harness.

Objects are reused when the command line and the content of every file they were
made from (recorded from the compiler's dependency output) are unchanged."""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("E57_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"

SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=alignment,vptr,function",
       "-fno-sanitize-recover=all"]
BASE = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-w", "-D_FILE_OFFSET_BITS=64"] + SAN
INC = ["-I", os.path.join(VERIF, "harness", "gen"), "-I", os.path.join(REPO, "include"),
       "-I", os.path.join(REPO, "src"), "-I", os.path.join(REPO, "extern", "CRCpp", "inc")]
LIBDEF = ['-DREVISION_ID="libE57Format-check"']

SO = ["-fPIC", "-fvisibility=hidden"]
# name -> flags
DIAG = ["-DE57_ENABLE_DIAGNOSTIC_OUTPUT"]
VARIANTS = {
    "main": ["-DE57_VALIDATION_LEVEL=2"] + DIAG,
    "v0": ["-DE57_VALIDATION_LEVEL=0", "-De57=e57v0", "-DNDEBUG", "-O2", "-ftrivial-auto-var-init=pattern"] + SO,
    "v1": ["-DE57_VALIDATION_LEVEL=1", "-De57=e57v1", "-ftrivial-auto-var-init=zero"] + DIAG + SO,
    "crazy": ["-DE57_VALIDATION_LEVEL=2", "-DE57_WRITE_CRAZY_PACKET_MODE", "-De57=e57cz"] + DIAG + SO,
    "verbose": ["-DE57_VALIDATION_LEVEL=1", "-DE57_VERBOSE", "-De57=e57vb"] + DIAG + SO,
}
# checks that are also performed with the other configurations (C32)
IN_VARIANTS = ["blobs", "building", "groups", "images", "layout", "names", "records", "scans", "states", "transfer",
               "tree"]
WRAP = ["open", "open64", "read", "write", "lseek", "lseek64", "close", "remove", "ftruncate", "ftruncate64",
        "unlink", "rename", "pread", "pread64", "pwrite", "pwrite64",
        "fstat", "fstat64",
        # what an environment may differ in (harness/vary.cpp)
        "_Znwm", "_Znam", "time", "gettimeofday", "clock_gettime", "_ZNSt6chrono3_V212system_clock3nowEv"]

_hash = {}


def fhash(p):
    if p not in _hash:
        try:
            with open(p, "rb") as f:
                _hash[p] = hashlib.sha256(f.read()).hexdigest()
        except OSError:
            _hash[p] = "missing"
    return _hash[p]


def compile_one(job):
    name, src, flags = job
    obj = os.path.join(BUILD, "obj", name + ".o")
    meta = obj + ".json"
    cmd = [CXX] + BASE + flags + INC + ["-c", src, "-o", obj]
    key = hashlib.sha256(json.dumps(cmd).encode()).hexdigest()
    try:
        with open(meta) as f:
            m = json.load(f)
        if m["key"] == key and os.path.exists(obj) and all(fhash(p) == h for p, h in m["deps"].items()):
            return obj, False, None
    except (OSError, ValueError, KeyError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    for p in (obj, meta):
        if os.path.exists(p):
            os.remove(p)
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep], capture_output=True, text=True)
    if r.returncode != 0:
        return obj, True, " ".join(cmd) + "\n" + r.stderr[:6000]
    with open(dep) as f:
        text = f.read().replace("\\\n", " ")
    deps = [d for d in text.split(":", 1)[1].split() if d]
    # only files that can change between runs
    deps = [os.path.abspath(d) for d in deps]
    deps = {d: fhash(d) for d in deps if d.startswith(REPO) or d.startswith(VERIF)}
    with open(meta, "w") as f:
        json.dump({"key": key, "deps": deps}, f)
    return obj, True, None


def main():
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    jobs = []
    for v, defs in VARIANTS.items():
        for src in sorted(glob.glob(os.path.join(REPO, "src", "*.cpp"))):
            jobs.append((v + "/" + os.path.basename(src)[:-4], src, defs + LIBDEF))
        named = defs + ["-DVARIANT=var_" + v, '-DVARIANT_NAME="%s"' % v]
        for src in sorted(glob.glob(os.path.join(VERIF, "harness", "variant", "*.cpp"))):
            jobs.append((v + "/h_" + os.path.basename(src)[:-4], src, named))
        for name in IN_VARIANTS if v != "main" else []:
            jobs.append((v + "/c_" + name, os.path.join(VERIF, "harness", name + ".cpp"),
                         named + ['-DVARIANT_REG="%s"' % v]))
    for src in sorted(glob.glob(os.path.join(VERIF, "harness", "*.cpp"))):
        jobs.append(("harness/" + os.path.basename(src)[:-4], src, ["-DE57_VALIDATION_LEVEL=2"] + DIAG))
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    objs, rebuilt, errors = [], 0, []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for obj, new, err in ex.map(compile_one, jobs):
            objs.append(obj)
            rebuilt += new
            if err:
                errors.append(err)
    if errors:
        sys.stderr.write("\n".join(errors[:3]) + "\nbuild failed\n")
        return 2
    objs.sort()
    wrap = ["-Wl,--wrap=" + w for w in WRAP]
    libs = ["-lxerces-c", "-lpthread", "-ldl"]
    out = os.path.join(BUILD, "e57check")
    links, sos = [], []
    # the other configurations are shared objects that export one function each
    for v in VARIANTS:
        if v == "main":
            continue
        so = os.path.join(BUILD, "libvar_%s.so" % v)
        vo = [o for o in objs if os.sep + v + os.sep in o]
        links.append((so, vo, [CXX] + SAN + ["-shared", "-o", so] + vo + wrap + libs))
        sos.append(so)
    mo = [o for o in objs if not any(os.sep + v + os.sep in o for v in VARIANTS if v != "main")]
    links.append((out, mo, [CXX] + SAN + ["-o", out] + mo + wrap + ["-Wl,--export-dynamic-symbol=__wrap_*", "-Wl,--no-as-needed"] + sos +
                  ["-Wl,-rpath,$ORIGIN"] + libs))

    def link(item):
        target, inputs, cmd = item
        stamp = target + ".stamp"
        h = hashlib.sha256(json.dumps(cmd).encode())
        for o in inputs:
            with open(o + ".json", "rb") as f:
                h.update(f.read())
        key = h.hexdigest()
        try:
            with open(stamp) as f:
                if f.read() == key and os.path.exists(target):
                    return None
        except OSError:
            pass
        if os.path.exists(stamp):
            os.remove(stamp)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            return r.stderr[:6000]
        with open(stamp, "w") as f:
            f.write(key)
        return None

    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        res = list(ex.map(link, links[:-1]))
    res.append(link(links[-1]))
    res = [r for r in res if r]
    if res:
        sys.stderr.write(res[0] + "\nlink failed\n")
        return 2
    if rebuilt:
        sys.stderr.write("built e57check (%d of %d objects recompiled)\n" % (rebuilt, len(jobs)))
    return 0


sys.exit(main())
