#!/usr/bin/env python3
"""Runs checks against planted bugs, several at a time, each in a mount
namespace of its own where copies stand in for /repo and /verif.
tryall.py [-j N] [-c ID,ID] [-o] NAME...   (development aid; no check uses it)
-f: stop at the first check that catches it.  -o: only the check of the bug's own property.  NAME is a folder of seeded/ or
a path to a patch."""
import json
import os
import shutil
import subprocess
import sys
import threading

ALL = ["C%02d" % k for k in range(1, 60) if os.path.exists("/verif/properties.jsonl") and
       '"C%02d"' % k in open("/verif/MANIFEST.json").read()]
a = sys.argv[1:]
jobs, ids, own, first = 3, None, False, False
while a and a[0].startswith("-"):
    f = a.pop(0)
    if f == "-j":
        jobs = int(a.pop(0))
    elif f == "-c":
        ids = a.pop(0).split(",")
    elif f == "-o":
        own = True
    elif f == "-f":
        first = True  # stop at the first check that catches it
names = a or sorted(os.listdir("/verif/seeded"))
lock = threading.Lock()
todo = list(names)
out = {}


def one(name):
    if name.endswith(".diff"):
        patch, prop = os.path.abspath(name), None
        name = name.strip("/").replace("/", "_")
    else:
        patch = "/verif/seeded/%s/patch.diff" % name
        prop = json.load(open("/verif/seeded/%s/meta.json" % name))["property"]
    d = "/tmp/tryall/" + name
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    subprocess.run(["rsync", "-a", "--exclude", "seeded", "--exclude", "build/work", "--exclude", ".git",
                    "--exclude", "build/replays", "/verif/", d + "/verif/"]
                   if shutil.which("rsync") else
                   ["bash", "-c", "mkdir -p %s/verif && cd /verif && tar cf - --exclude=./seeded --exclude=./build/work "
                    "--exclude=./.git --exclude=./build/replays . | tar xf - -C %s/verif" % (d, d)], check=True)
    checks = ids or ([prop] if own and prop else ALL)
    script = """
set -e
mount --bind %s/repo /repo; mount --bind %s/verif /verif
cd /repo; git apply %s/patch.diff
cd /verif
for c in %s; do timeout 900 python3 tools/check.py $c > %s/$c.log 2>&1 && s=0 || s=$?; echo $c $s; %s done
""" % (d, d, d, " ".join(checks), d, "[ $s = 1 ] && break;" if first else "")
    shutil.copy(patch, d + "/patch.diff")
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", script], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    r = {}
    for line in p.stdout.splitlines():
        w = line.split()
        if len(w) == 2 and w[0] in checks:
            r[w[0]] = int(w[1])
    hit = [c for c in checks if r.get(c) == 1 and "VIOLATION property=" + c in open("%s/%s.log" % (d, c)).read()]
    odd = ["%s=%s" % (c, r.get(c)) for c in checks if c not in hit and r.get(c) != 0]
    with lock:
        out[name] = hit
        print("%-16s %s  %s%s" % (name, "own" if prop in hit else "MISS" if prop else "", " ".join(hit),
                                  "   ODD " + " ".join(odd) if odd else ""), flush=True)
        if len(r) < len(checks):
            print(p.stdout[-500:])
        for o in odd:
            print(open("%s/%s.log" % (d, o[:3])).read()[-600:] if os.path.exists("%s/%s.log" % (d, o[:3])) else "")
    if not odd:
        shutil.rmtree(d, ignore_errors=True)


def worker():
    while True:
        with lock:
            if not todo:
                return
            n = todo.pop(0)
        one(n)


ts = [threading.Thread(target=worker) for _ in range(jobs)]
[t.start() for t in ts]
[t.join() for t in ts]
