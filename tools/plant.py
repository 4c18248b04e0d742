#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: makes and confirms planted bugs.

SPEC.py defines BUGS: a list of dicts with id, property, needs, breaks, edits [(file, old, new)]
and demo (C++ source). Each is made and tried in a scratch copy of /repo under /tmp/plant
(build, stable tests, demo with and without the change); what passes is written to
/verif/seeded/<id>/."""
import json
import os
import shutil
import subprocess
import sys

ROOT = "/tmp/plant"
REPO = ROOT + "/repo"
BASE = "37c284f"  # the commit the repository was given at
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

DEMO = """#!/bin/bash
# Builds demo.cpp against the built library and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -g -fsanitize=address,undefined -fno-sanitize-recover=undefined \\
    -I_build -Iinclude "$here/demo.cpp" _build/libE57Format-d.a -lxerces-c -lpthread -o "$t/demo" || exit 3
cd "$t" && timeout 200 ./demo
"""

PRE = """#include <E57Format.h>
#include <E57SimpleReader.h>
#include <E57SimpleWriter.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <iterator>
#include <string>
#include <vector>
using namespace e57;
#define CHECK( c ) do { if ( !( c ) ) { printf( "failed: %s (line %d)\\n", #c, __LINE__ ); exit( 1 ); } } while ( 0 )
"""
MAIN = """
int main()
{
   try
   {
      demo();
   }
   catch ( const E57Exception &e )
   {
      printf( "unexpected error %d: %s\\n", (int)e.errorCode(), e.context().c_str() );
      return 1;
   }
   printf( "ok\\n" );
   return 0;
}
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    os.makedirs(ROOT, exist_ok=True)
    if not os.path.isdir(REPO):
        sh("git clone -q /repo %s" % REPO)
        sh("cp -a /repo/extern/. %s/extern/; cp -a /repo/test/. %s/test/" % (REPO, REPO))
    sh("cd %s && git fetch -q origin && git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)" % REPO)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", REPO).replace("/opt/vp/build.sh", ROOT + "/build.sh")
        open(ROOT + "/" + f, "w").write(t)
    r = sh("bash %s/build.sh" % ROOT)
    if r.returncode:
        sys.exit("scratch build failed\n" + r.stdout[-3000:])


def tests():
    r = sh("bash %s/test.sh %s/o.json" % (ROOT, ROOT))
    try:
        got = set(json.load(open(ROOT + "/o.json"))["passed"])
    except Exception:
        return "tests gave no answer: " + r.stdout[-500:]
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = set(base["passed"] if "passed" in base else base["stable"])
    return "" if want <= got else "tests fail: " + ", ".join(sorted(want - got))


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    only = set(sys.argv[2:])
    prepare()
    for b in spec["BUGS"]:
        if only and b["id"] not in only:
            continue
        sh("cd %s && git checkout -q -- ." % REPO)
        d = os.path.join(ROOT, "bug", b["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        bad = ""
        for f, old, new in b["edits"]:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                bad = "%s: text found %d times: %s" % (f, t.count(old), old[:60])
                break
            open(p, "w").write(t.replace(old, new))
        if bad:
            print(b["id"], "NOT PLANTED", bad, flush=True)
            continue
        blame = ""
        for line in sh("cd %s && git diff -U0" % REPO).stdout.splitlines():
            if line.startswith("--- a/"):
                original = sh("git -C /repo show %s:%s" % (BASE, line[6:])).stdout.splitlines()
            elif line.startswith("-") and line[1:].strip() and line[1:] not in original:
                blame = line
        if blame:
            print(b["id"], "NOT PLANTED, changes an added line:", blame, flush=True)
            continue
        open(d + "/patch.diff", "w").write(sh("cd %s && git diff" % REPO).stdout)
        open(d + "/demo.sh", "w").write(b.get("demo_sh", DEMO))
        open(d + "/demo.cpp", "w").write(PRE + b["demo"] + MAIN)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/build.sh" % ROOT)
        if r.returncode:
            print(b["id"], "NOT PLANTED build", r.stdout[-1500:], flush=True)
            continue
        t = tests()
        with_bug = sh("cd %s && bash %s/demo.sh" % (REPO, d))
        sh("cd %s && git checkout -q -- . && bash %s/build.sh" % (REPO, ROOT))
        without = sh("cd %s && bash %s/demo.sh" % (REPO, d))
        if t or with_bug.returncode == 0 or with_bug.returncode == 3 or without.returncode != 0:
            print(b["id"], "NOT PLANTED", t, "| demo with:", with_bug.returncode, with_bug.stdout[-600:], "| without:",
                  without.returncode, without.stdout[-1500:], flush=True)
            continue
        dst = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b["id"], "planted; demo:", with_bug.stdout.strip().splitlines()[0][:150] if with_bug.stdout.strip() else with_bug.returncode, flush=True)


main()
