#!/usr/bin/env python3
"""Development aid: confirm planted bugs and write them to /verif/seeded.

usage: seed.py DEFS.py [ID...]   DEFS.py defines BUGS = [dict(id=, prop=, needs=, breaks=,
edits=[(file, old, new)...], demo=python source)]. Works on scratch copies only.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORIG = "728c648"
DEMO = """#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$here/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def one(b, wt):
    shutil.rmtree(wt, ignore_errors=True)
    sh(["git", "clone", "-q", "/repo", wt], "/")
    for f, old, new in b["edits"]:
        p = os.path.join(wt, f)
        t = open(p).read()
        if t.count(old) != 1:
            return f"edit matches {t.count(old)} times in {f}: {old[:60]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = sh(["git", "diff"], wt).stdout
    files = sorted({f for f, _, _ in b["edits"]})
    orig = 0
    for f in files:
        old = sh(["git", "blame", "-s", "HEAD", "--", f], wt).stdout.splitlines()
        d = sh(["git", "diff", "-U0", "--", f], wt).stdout
        for line in d.splitlines():
            if line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                start, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                for i in range(start, start + n):
                    if old[i - 1].startswith("^") or ORIG in old[i - 1].split()[0]:
                        orig += 1
                    else:
                        return f"changes a line of our own: {old[i - 1]}"
    if not orig:
        return "changes no original line"
    out = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(out, exist_ok=True)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    open(os.path.join(out, "demo.py"), "w").write(b["demo"].lstrip())
    open(os.path.join(out, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(out, "demo.sh"), 0o755)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(os.path.join(out, "meta.json"), "w"), indent=1)
    demo = os.path.join(out, "demo.sh")
    g = sh(["bash", demo], "/repo")
    if g.returncode:
        return "demo fails on the unchanged tree: " + g.stderr[-400:]
    h = sh(["bash", demo], wt)
    if not h.returncode:
        return "demo passes with the patch"
    env = dict(os.environ, PYTHONPATH=wt, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], wt,
           env=env)
    last = t.stdout.strip().splitlines()[-1] if t.stdout.strip() else t.stderr[-200:]
    if " failed" in last or "passed" not in last:
        return "TESTS: " + "|".join(x for x in t.stdout.splitlines() if x.startswith("FAILED"))[:400]
    c = sh(["python3", "check.py", b["prop"], "--repo", wt], HERE)
    why = h.stderr.strip().splitlines()
    res = {0: "MISSED", 1: "caught"}.get(c.returncode, f"BROKEN {c.returncode} {c.stderr[-300:]}")
    first = c.stdout.splitlines()[1:2] if c.returncode == 1 else c.stdout.splitlines()[:1]
    return f"OK   {b['prop']} {res}  [{last}] {' '.join(first)[:170]}  demo: {why[-1][:80] if why else ''}"


def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor

    def go(b):
        wt = f"/tmp/seedwt_{b['id']}"
        try:
            r = one(b, wt)
        finally:
            shutil.rmtree(wt, ignore_errors=True)
        if not r.startswith("OK"):
            shutil.rmtree(os.path.join(HERE, "seeded", b["id"]), ignore_errors=True)
        print(b["id"], r, flush=True)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(go, [b for b in bugs if not want or b["id"] in want]))


if __name__ == "__main__":
    main()
