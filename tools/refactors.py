#!/usr/bin/env python3
"""Applies behaviour-preserving edits, one at a time, to a scratch copy of /repo
and reports every check that is not quiet.   usage: refactors.py [NAME...]"""
import os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
import queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []

def ref(name, *edits):
    R.append((name, edits))

exec(open(os.path.join(ROOT, "tools", "refactorings.py")).read())

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

base = tempfile.mkdtemp(prefix="refac")
dirs = queue.Queue()
N = 6
for i in range(N):
    sh(f"cp -a /repo {base}/r{i} && mkdir {base}/v{i} && cp {ROOT}/known_findings.txt {base}/v{i}/ && mkdir {base}/v{i}/evidence && cp {ROOT}/properties.jsonl {base}/v{i}/")
    dirs.put(i)

FULL = "--full" in sys.argv

def only(edits):
    """The properties that can depend on what is edited (all of them with --full)."""
    if FULL:
        return "all"
    ps = set()
    for f, _, _ in edits:
        if f.endswith("boot.oh"):
            ps |= {"C04", "C05", "C18", "C29", "C30", "C31"}
        elif f == "main.go" or "/history/" in f or "/cache/" in f:
            ps |= {"C22", "C01", "C10", "C11", "C23", "C28"}
        elif "/reader/" in f:
            ps |= {"C01", "C04", "C10", "C11", "C16", "C17", "C18", "C21", "C22", "C28"}
        elif "type/pipe/" in f or "type/chn/" in f:
            ps |= {"C01", "C07", "C10", "C11", "C13", "C14", "C21"}
        elif f.endswith("conduit.go") or f.endswith("file.go"):
            ps |= {"C01", "C02", "C04", "C10", "C13", "C20", "C21"}
        else:
            ps |= {"C%02d" % n for n in (1, 2, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 18, 19, 20, 24, 23, 25, 26, 28)}
    if any("/type/" in f or "literal" in f for f, _, _ in edits):
        ps.add("C16")
    return ",".join(sorted(ps))

def one(item):
    name, edits = item
    i = dirs.get()
    try:
        d = f"{base}/r{i}"
        sh(f"git -C {d} checkout -- .")
        for f, old, new in edits:
            p = f"{d}/{f}"
            s = open(p).read()
            if s.count(old) < 1:
                return f"{name}: NO MATCH in {f}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new, 1))
        x = sh(f"cd {d} && . {ROOT}/env.sh && go vet ./... 2>&1 | grep -v '^#' | head -5; go build -o /dev/null . ")
        if x.returncode:
            return f"{name}: BUILD {x.stdout} {x.stderr}"
        x = sh(f"ulimit -v 12000000; timeout 600 {ROOT}/bin/ohcheck -root {base}/v{i} -repo {d} -property {only(edits)}")
        bad = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
        if bad or x.returncode:
            return f"{name}: rc={x.returncode}\n" + "\n".join("    " + l[:260] for l in x.stdout.splitlines() if ": " in l and " 0 violated" not in l)[:2500] + x.stderr[-300:]
        return f"{name}: quiet"
    finally:
        dirs.put(i)

sel = [a for a in sys.argv[1:] if a != "--full"]
items = [r for r in R if not sel or r[0] in sel]
with ThreadPoolExecutor(N) as ex:
    n = 0
    for r in ex.map(one, items):
        n += not r.endswith("quiet")
        if sel or not r.endswith("quiet"):
            print(r, flush=True)
print(f"{len(items)} refactorings, {n} not quiet")
shutil.rmtree(base)
