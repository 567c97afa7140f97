#!/usr/bin/env python3
"""Runs each planted bug's demonstration N times with and without the patch,
in mount namespaces of their own.  demos.py [-n N] [NAME...]  (development aid)"""
import os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
n = 4
if a[:1] == ["-n"]:
    n = int(a[1]); a = a[2:]
names = a or sorted(os.listdir("/verif/seeded"))
def one(name):
    d = "/tmp/demos/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    s = "/verif/seeded/" + name
    script = """
mount --bind %s/repo /repo; cd /repo
for k in $(seq %d); do timeout 300 bash %s/demo.sh >/dev/null 2>&1; echo -n "$? "; done; echo -n "/ "
git apply %s/patch.diff || echo NOAPPLY
for k in $(seq %d); do timeout 300 bash %s/demo.sh >/dev/null 2>&1; echo -n "$? "; done
""" % (d, n, s, s, n, s)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    shutil.rmtree(d, ignore_errors=True)
    w, _, b = p.stdout.partition("/")
    ok = w.split() == ["0"] * n and "0" not in b.split() and len(b.split()) == n
    return name, ok, p.stdout
with ThreadPoolExecutor(8) as ex:
    for name, ok, out in ex.map(one, names):
        print("%-18s %s %s" % (name, "ok " if ok else "BAD", out.strip()), flush=True)
