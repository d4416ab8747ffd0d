#!/usr/bin/env python3
"""mkbug.py SPEC.py...: make seeded/<id>/ from a spec and confirm it in a scratch copy of /repo.

A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)...] and DEMO (a C++ program, or DEMO_SH).
Confirmed: the patch applies, the library builds, the stable tests pass, the demo passes before and fails after."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# exit 0: the behaviour is right; non-zero: it is broken. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -w -O1 %s -I include -I "$here" "$here/demo.cpp" -o "$tmp/demo" %s || exit 2
cd "$tmp" && timeout 120 ./demo
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main(spec):
    ns = {"FLAGS": "", "LIBS": ""}
    exec(open(spec).read(), ns)
    d = os.path.join(HERE, "seeded", ns["ID"])
    scratch = tempfile.mkdtemp(prefix="bug-", dir="/tmp")
    try:
        wt = os.path.join(scratch, "w")
        sh("git -C /repo archive HEAD --prefix=w/ | tar x -C %s" % scratch)
        sh("cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % wt)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(SH % (ns["FLAGS"], ns["LIBS"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "demo.cpp"), "w") as f:
            f.write(ns["DEMO"].lstrip())
        for fn, text in ns.get("FILES", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, fn)), exist_ok=True)
            open(os.path.join(d, fn), "w").write(text)
        json.dump(dict(property=ns["PROPERTY"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, cwd=wt)
        if r.returncode:
            print(ns["ID"], "REJECT: demo fails on the clean tree", r.stdout[-800:], r.stderr[-800:])
            shutil.rmtree(d)
            return
        for fn, old, new in ns["EDITS"]:
            p = os.path.join(wt, "include/noarr/structures", fn)
            t = open(p).read()
            if t.count(old) != 1:
                print(ns["ID"], "REJECT: edit matches %d times in %s" % (t.count(old), fn))
                shutil.rmtree(d)
                return
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % wt).stdout)
        r = sh("bash %s/demo.sh" % d, cwd=wt)
        if r.returncode == 0:
            print(ns["ID"], "REJECT: demo passes with the bug")
            shutil.rmtree(d)
            return
        print(ns["ID"], "demo with bug: rc", r.returncode, (r.stdout + r.stderr)[-150:].strip().replace("\n", " | "))
        if os.environ.get("NOTEST"):
            return
        ok, msg = runtests(wt, scratch)
        if not ok:
            print(ns["ID"], "REJECT: tests", msg)
            shutil.rmtree(d)
            return
        print(ns["ID"], "CONFIRMED")
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def runtests(wt, scratch):
    """the stable tests, with the sandbox's own scripts pointed at the copy"""
    vp = os.path.join(scratch, "vp")
    shutil.copytree("/opt/vp", vp)
    for fn in ("env.sh", "build.sh", "test.sh", "run_tests.py", "results.py"):
        q = os.path.join(vp, fn)
        t = open(q).read()
        t = re.sub(r"/repo(?![a-z])", wt, t).replace("/opt/vp", vp)
        open(q, "w").write(t)
    r = sh("bash %s/build.sh" % vp)
    if r.returncode:
        return False, "build: " + (r.stdout + r.stderr)[-600:]
    r = sh("bash %s/test.sh %s/out.json" % (vp, scratch))
    o = json.load(open(scratch + "/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    bad = sorted(stable - set(o["passed"]))
    return not bad, bad[:5]


if __name__ == "__main__":
    for s in sys.argv[1:]:
        main(s)
