#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/bugs.py and confirms each change.

usage: seed.py [-c] [ID...]    -c: confirm (build, stable tests, demo both ways, run the check)
Changes are confirmed in /repo itself and undone straight afterwards.
"""
import json, os, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUGS = []

def bug(id, prop, edits, script, expect, needs, breaks, demo=None, files=None):
    BUGS.append(dict(id=id, prop=prop, edits=edits, script=script, expect=expect, needs=needs, breaks=breaks, demo=demo, files=files or {}))


DEMO = r'''#!/bin/bash
# Runs a script with the shell built from the current directory and compares
# what it prints with what it should print.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
go build -o "$d/oh" . || exit 2
mkdir "$d/cwd" && cp "$here/script.oh" "$d/cwd/script.oh" && cd "$d/cwd" || exit 2
HOME=$d/cwd timeout -k 5 %(timeout)s setsid -w "$d/oh" script.oh > "$d/out" 2>&1 < /dev/null
status=$?
cat "$d/out"
[ $status -ne 124 ] && [ $status -ne 137 ] || exit 1
diff "$here/expected.txt" "$d/out"
'''

exec(open(os.path.join(ROOT, "tools", "bugs.py")).read())

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def clean():
    sh(f"git -C {REPO} checkout -- .")
    assert sh(f"git -C {REPO} status --porcelain").stdout == ""

def write(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for f, old, new in b["edits"]:
        p = os.path.join(REPO, f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1, (b["id"], f, n, old)
        open(p, "w").write(s.replace(old, new))
    sh(f"cd {REPO} && gofmt -l " + " ".join(f for f, _, _ in b["edits"]))
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {REPO} diff").stdout)
    clean()
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if b["script"] is not None:
        open(os.path.join(d, "script.oh"), "w").write(b["script"])
        open(os.path.join(d, "expected.txt"), "w").write(b["expect"])
    for n, t in b["files"].items():
        open(os.path.join(d, n), "w").write(t)
    p = os.path.join(d, "demo.sh")
    open(p, "w").write(b["demo"] or DEMO % {"timeout": 20})
    os.chmod(p, 0o755)

def confirm(b):
    d = os.path.join(ROOT, "seeded", b["id"])
    r = []
    clean()
    try:
        x = sh(f"cd {REPO} && {d}/demo.sh")
        r.append("clean-demo " + ("ok" if x.returncode == 0 else "FAILS\n" + x.stdout + x.stderr))
        x = sh(f"git -C {REPO} apply {d}/patch.diff")
        if x.returncode: r.append("APPLY " + x.stderr)
        x = sh("bash /opt/vp/build.sh")
        r.append("build " + ("ok" if x.returncode == 0 else "FAILS " + x.stdout + x.stderr))
        sh("rm -f /tmp/seed-out.json; timeout 100 bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json")) if os.path.exists("/tmp/seed-out.json") else {}
        base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        passed = set(o.get("passed", o.get("pass", [])))
        miss = [t for t in base if t not in passed]
        r.append("tests ok" if not miss else "TESTS FAIL %s" % miss)
        x = sh(f"cd {REPO} && {d}/demo.sh")
        r.append("bug-demo " + ("fails (good)" if x.returncode else "PASSES (bad)"))
        x = sh(f"{ROOT}/check.sh {b['prop']}")
        r.append("check " + ("CAUGHT " if x.returncode == 1 else "missed %d " % x.returncode))
        r.append("   " + "\n   ".join((x.stdout + x.stderr).strip().splitlines()[:2]))
    finally:
        clean()
    print(b["id"], b["prop"], "; ".join(r), flush=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    c = "-c" in a
    ids = [x for x in a if x != "-c"]
    for b in BUGS:
        if ids and b["id"] not in ids: continue
        write(b)
        if c: confirm(b)
    if c: sh("bash /opt/vp/build.sh")
