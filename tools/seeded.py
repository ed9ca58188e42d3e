#!/usr/bin/env python3
"""Run the quick check of each planted bug's property against a patched scratch copy of /repo.

usage: seeded.py [-a] [-s SEED] [ID ...]       (-a: run every check, and list all that see the bug)
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = "-a" in args
seed = args[args.index("-s") + 1] if "-s" in args else "1"
ids = [a for ii, a in enumerate(args) if not a.startswith("-") and (ii == 0 or args[ii - 1] != "-s")]
base = os.path.join(VERIF, "seeded")
missed = []
rpath = os.path.join(VERIF, "tools", "seeded_results.json")
results = json.load(open(rpath)) if os.path.exists(rpath) else {}
for bug in sorted(os.listdir(base)):
    if ids and bug not in ids:
        continue
    prop = json.load(open(os.path.join(base, bug, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seeded_")
    try:
        repo = os.path.join(tmp, "r")
        subprocess.check_call(["cp", "-a", "/repo", repo])
        subprocess.check_call(["git", "apply", os.path.join(base, bug, "patch.diff")], cwd=repo)
        props = [prop] + (["C%02d" % ii for ii in range(1, 31) if "C%02d" % ii != prop] if every else [])
        seen = []
        for pp in props:
            run = subprocess.run([os.path.join(VERIF, "check.sh"), pp, "quick", "--no-evidence", "--seed", seed],
                                 env=dict(os.environ, KALEPY_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if run.returncode == 1 and "VIOLATION property=" + pp in run.stdout:
                seen.append(pp)
            elif run.returncode not in (0, 1):
                seen.append(pp + "(error %d)" % run.returncode)
        ok = prop in seen
        if not ok:
            missed.append(bug)
        results[bug] = seen
        json.dump(results, open(rpath, "w"), indent=1, sort_keys=True)
        print("%-34s %s %s" % (bug, "caught" if ok else "MISSED", " ".join(seen)), flush=True)
    finally:
        shutil.rmtree(tmp)
print("missed:", missed)
