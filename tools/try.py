#!/usr/bin/env python3
"""Applies a patch to /repo, runs checks, undoes it.  try.py [-R] PATCH [ID...]
(development aid; no check uses it)"""
import subprocess
import sys
import re
a = sys.argv[1:]
rev = a[0] == "-R"
if rev:
    a = a[1:]
import os
patch, ids = os.path.abspath(a[0]), a[1:] or ["C%02d" % k for k in range(1, 19)]
st = subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
if st.strip():
    sys.exit("/repo is not clean")
subprocess.run(["git", "-C", "/repo", "apply"] + (["-R"] if rev else []) + [patch], check=True)
try:
    b = subprocess.run(["bash", "/opt/vp/build.sh"], capture_output=True, text=True)
    print("build", b.returncode, flush=True)
    if b.returncode:
        print(b.stderr[-1500:])
        sys.exit(1)
    t = subprocess.run(["bash", "/opt/vp/test.sh", "/verif/build/try-test.json"], capture_output=True, text=True)
    print("tests", t.returncode, flush=True)
    if t.returncode:
        print("\n".join(x for x in t.stdout.splitlines() if "FAILED" in x))
    hit = []
    for i in ids:
        try:
            p = subprocess.run(["python3", "/verif/tools/check.py", i], capture_output=True, text=True, timeout=900, cwd="/verif")
        except subprocess.TimeoutExpired:
            print(i, "TIMEOUT")
            continue
        if p.returncode == 1 and "VIOLATION property=" + i in p.stdout:
            hit.append(i)
        elif p.returncode:
            print(i, p.returncode, (p.stdout + p.stderr)[-600:])
    print("CAUGHT", " ".join(hit), flush=True)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
