#!/usr/bin/env python3
"""matrix.py [--all] [--seeds N] [ID...]: runs checks against planted bugs, in scratch copies under /tmp.

By default each bug's own check; with --all every check. Prints which checks report a violation."""
import glob
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/matrix"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


args = sys.argv[1:]
every = "--all" in args
seeds = int(args[args.index("--seeds") + 1]) if "--seeds" in args else 1
ids = [a for a in args if not a.startswith("-") and not a.isdigit()]
checks = [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]
os.makedirs(W, exist_ok=True)
sh("git clone -q /repo %s/repo; cd %s/repo && git fetch -q && git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)" % (W, W))
sh("mkdir -p %s/verif && cp -a %s/harness %s/tools %s/run.sh %s/known_findings.txt %s/properties.jsonl %s/MANIFEST.json %s/verif/"
   % (W, VERIF, VERIF, VERIF, VERIF, VERIF, VERIF, W))
if not os.path.isdir(W + "/verif/build"):
    sh("cp -a %s/build %s/verif/build" % (VERIF, W))
env = dict(os.environ, E57_REPO=W + "/repo")
for d in sorted(glob.glob(VERIF + "/seeded/*/")):
    b = os.path.basename(d[:-1])
    if ids and b not in ids:
        continue
    prop = json.load(open(d + "meta.json"))["property"]
    sh("cd %s/repo && git checkout -q -- ." % W)
    r = sh("cd %s/repo && git apply %s/patch.diff" % (W, d))
    if r.returncode:
        print(b, prop, "PATCH DOES NOT APPLY", r.stdout[:200], flush=True)
        continue
    out = []
    for c in (checks if every else [prop]):
        for s in range(1, seeds + 1):
            e = dict(env, VERIF_SEED=str(s))
            try:
                r = sh("cd %s/verif && timeout 900 bash run.sh %s" % (W, c), env=e)
            except Exception as x:
                out.append(c + ":" + str(x))
                continue
            hit = r.returncode == 1 and ("VIOLATION property=%s " % c) in r.stdout
            if every:
                if hit or r.returncode not in (0, 1):
                    out.append(c + ("" if hit else "(exit %d)" % r.returncode))
            else:
                out.append("caught" if hit else "MISSED(exit %d) %s" % (r.returncode, r.stdout.strip()[-300:] if r.returncode not in (0, 1) else ""))
    print(b, prop, " ".join(out), flush=True)
sh("cd %s/repo && git checkout -q -- ." % W)
