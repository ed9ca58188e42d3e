#!/usr/bin/env python3
"""Plant bugs: build and confirm /verif/seeded/<id>/ from a table of edits.

usage: plant.py SPEC.py [ID ...] [--no-tests] [--no-check] [--only-check]

SPEC.py defines BUGS, a list of dicts:  id, prop, edits=[(file, old, new)], needs, breaks, demo (python source).
For each bug a scratch copy of /repo is made under /tmp, and it is confirmed there that:
  - the patch applies, and changes lines of the original repository (git blame),
  - the demonstration passes on the unchanged tree and fails with the patch,
  - the stable tests (/opt/vp/BASELINE.json) still pass,
and reported whether the quick check of the property catches it.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = "/verif"
REPO = "/repo"
ORIG = "98e50f7"
STATUS = "/tmp/w/plant/status.json"

DEMO_SH = """#!/bin/bash
# Run with cwd at the root of the repository: exit 0 if the behaviour is right, and 1 otherwise.
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD" MPLBACKEND=Agg MPLCONFIGDIR=/opt/venv/mplconfig PYTHONDONTWRITEBYTECODE=1
export OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return 124, "TIMEOUT %s" % (ex.stdout or "")


def scratch():
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp/w/plant")
    r = os.path.join(d, "r")
    subprocess.check_call(["cp", "-a", REPO, r])
    return d, r


def build(bug):
    out = os.path.join(VERIF, "seeded", bug["id"])
    d, r = scratch()
    try:
        files = sorted({f for f, _, _ in bug["edits"]})
        for f, old, new in bug["edits"]:
            p = os.path.join(r, f)
            src = open(p).read()
            if src.count(old) != 1:
                return "edit matches %d times in %s: %r" % (src.count(old), f, old[:80])
            open(p, "w").write(src.replace(old, new))
        rc, diff = sh(["git", "diff", "-U3", "--"] + files, cwd=r)
        if not diff.strip():
            return "empty diff"
        # blame of the removed lines
        rc, d0 = sh(["git", "diff", "-U0", "--"] + files, cwd=r)
        fn, bad, nrem = None, [], 0
        for ln in d0.splitlines():
            if ln.startswith("--- a/"):
                fn = ln[6:]
            if ln.startswith("@@"):
                a = ln.split()[1][1:]
                st, n = (a.split(",") + ["1"])[:2]
                st, n = int(st), int(n)
                if n == 0:
                    continue
                rc, bl = sh(["git", "blame", "-s", "-L", "%d,+%d" % (st, n), "HEAD", "--", fn], cwd=r)
                for b in bl.splitlines():
                    nrem += 1
                    if not b.lstrip("^").startswith(ORIG):
                        bad.append(b)
        if nrem == 0:
            bad.append("only additions")
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=2)
        return "not original: " + "; ".join(bad) if bad else None
    finally:
        shutil.rmtree(d)


def confirm(bug, tests=True, check=True):
    """Demonstration on both trees, stable tests, quick check"""
    out = os.path.join(VERIF, "seeded", bug["id"])
    res = {}
    d, r = scratch()
    try:
        rc, log = sh([os.path.join(out, "demo.sh")], cwd=r, timeout=300)
        res["demo_base"] = rc
        if rc != 0:
            res["log_base"] = log[-1500:]
        rc, log = sh(["git", "apply", os.path.join(out, "patch.diff")], cwd=r)
        if rc != 0:
            res["apply"] = log
            return res
        rc, log = sh([os.path.join(out, "demo.sh")], cwd=r, timeout=300)
        res["demo_bug"] = rc
        res["log_bug"] = log[-600:]
        if tests and res["demo_base"] == 0 and res["demo_bug"] != 0:
            t = open("/opt/vp/test.sh").read().replace("cd /repo ||", "cd %s ||" % r).replace("-n 8", "-n 4")
            open(os.path.join(d, "test.sh"), "w").write(t)
            rc, log = sh(["bash", os.path.join(d, "test.sh"), os.path.join(d, "out.json")], cwd=r)
            try:
                got = json.load(open(os.path.join(d, "out.json")))
                passed = set(got["passed"])
                stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
                res["tests_failed"] = sorted(stable - passed)
            except Exception as ex:
                res["tests_failed"] = ["ERROR %s" % ex, log[-500:]]
        if check:
            t0 = time.time()
            rc, log = sh([os.path.join(VERIF, "check.sh"), bug["prop"], "quick", "--no-evidence"], cwd=VERIF,
                         env={"KALEPY_REPO": r, "VERIF_SEED": "1"})
            vio = [ln for ln in log.splitlines() if ln.startswith("VIOLATION property=" + bug["prop"])]
            res["check_rc"] = rc
            res["caught"] = bool(rc == 1 and vio)
            res["check_log"] = log[-1200:]
            res["check_time"] = round(time.time() - t0)
        return res
    finally:
        shutil.rmtree(d)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    spec = importlib.util.spec_from_file_location("spec", args[0])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    ids = args[1:]
    bugs = [b for b in mod.BUGS if not ids or b["id"] in ids]
    todo = []
    for b in bugs:
        if "--only-check" not in sys.argv:
            err = build(b)
            if err:
                print("%-28s %s BUILD: %s" % (b["id"], b["prop"], err))
                continue
        todo.append(b)

    def one(b):
        return b, confirm(b, tests=not ({"--no-tests", "--only-check"} & set(sys.argv)), check="--no-check" not in sys.argv)

    status = json.load(open(STATUS)) if os.path.exists(STATUS) else {}
    with ThreadPoolExecutor(3) as ex:
        for b, res in ex.map(one, todo):
            status.setdefault(b["id"], {}).update(dict(res, prop=b["prop"]))
            json.dump(status, open(STATUS, "w"), indent=1)
            ok = (res.get("demo_base") == 0 and res.get("demo_bug", 0) != 0 and not res.get("tests_failed"))
            print("%-28s %s %s demo %s/%s tests_failed=%s check rc=%s caught=%s (%ss)" % (
                b["id"], b["prop"], "VALID" if ok else "-----", res.get("demo_base"), res.get("demo_bug"),
                res.get("tests_failed"), res.get("check_rc"), res.get("caught"), res.get("check_time")), flush=True)
            for k in ("apply", "log_base"):
                if k in res:
                    print("     ", k, res[k])


if __name__ == "__main__":
    main()
