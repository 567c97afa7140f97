#!/usr/bin/env python3
"""How sharp the specification is: corrupts records of the library in one place
each and counts which of them TLC still allows (development aid).
usage: selftest.py ID [N] [SEED]"""
import collections
import copy
import json
import os
import random
import re
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as K

pid, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 200
r = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
got = []


def keep(self, name, recs, cfg="Records.cfg", module="Records.tla", workers=8):
    for x in recs:
        y = self.slim(x)
        if y and len(json.dumps(y)) < 60000:
            got.append((y, cfg, module))


K.Check.judge = keep
K.Check.design = lambda self, *a, **k: None
K.Check.behaviours = lambda self, *a, **k: ([], [])
K.build_harness()
k = K.Check(pid, "quick", 1)
K.CHECKS[pid](k)
OBS = ("obs", "fatal") if pid < "C07" and pid != "C05" else ("obs", "res", "fatal") if pid == "C05" else ("res", "work", "kept", "vals", "fatal")


def leaves(x, path):
    if isinstance(x, dict):
        for a in x:
            yield from leaves(x[a], path + (a,))
    elif isinstance(x, list):
        if x:
            yield path, "list"
        for j, y in enumerate(x):
            yield from leaves(y, path + (j,))
    else:
        yield path, "leaf"


def shape(path):
    return ".".join("*" if isinstance(p, int) else p for p in path)


def corrupt(rec):
    by = collections.defaultdict(list)
    for f in OBS:
        for p, kind in leaves(rec[f], (f,)):
            by[shape(p), kind].append(p)
    if not by:
        return None
    (s, kind) = r.choice(sorted(by))
    p = r.choice(by[s, kind])
    c = copy.deepcopy(rec)
    at = c
    for q in p[:-1]:
        at = at[q]
    old = at[p[-1]]
    syms = [rec["g"]["eps"], rec["g"]["start"]] + [y for q in rec["g"]["prods"] for y in [q["l"]] + q["r"]] + ["?"]
    if kind == "list":
        how = r.choice(["drop", "double", "swap"])
        j = r.randrange(len(old))
        if how == "drop":
            old.pop(j)
        elif how == "double":
            old.insert(j, copy.deepcopy(old[j]))
        elif len(old) > 1:
            m = (j + 1) % len(old)
            old[j], old[m] = old[m], old[j]
        s += ":" + how
    elif isinstance(old, bool):
        at[p[-1]] = not old
    elif isinstance(old, int):
        at[p[-1]] = old + r.choice([-1, 1, 1000000])
    elif p[-1] == "k":
        at[p[-1]] = r.choice(["ok", "err", "fix", "panic", "gap"])
    elif p[-1] in ("build", "ff", "tb"):
        at[p[-1]] = r.choice(["ok", "panic"])
    elif p[-1] == "ans":
        at[p[-1]] = r.choice(["no", "fix"])
    elif p[-1] == "kind":
        at[p[-1]] = r.choice(["one", "many"])
    elif p[-1] == "fatal":
        at[p[-1]] = "hang"
        c["stage"] = r.choice(["build", "analysis", "run"])
    else:
        at[p[-1]] = r.choice(syms)
    return None if c == rec else (s, c, p)


todo = []
while len(todo) < n and got:
    y, cfg, module = r.choice(got)
    x = corrupt(y)
    if x:
        todo.append(x + (cfg, module, y))
lock = threading.Lock()
tally = collections.defaultdict(collections.Counter)
errors = []
samples = {}


def verdicts(batch):
    """of records judged by Records.tla"""
    f = os.path.join(k.work, "self-%d.ndjson" % id(batch))
    with open(f, "w") as h:
        for x in batch:
            h.write(json.dumps(x[1]) + "\n")
    import subprocess
    e = dict(os.environ, REC=f, PROP=pid)
    out = subprocess.run(["java", "-Xss512m", "-Xmx3g", "-cp", K.JAR, "tlc2.TLC", "-metadir", f + ".meta", "-noGenerateSpecTE", "-workers", "1",
                          "-config", os.path.join(K.SPEC, "SelfTest.cfg"), os.path.join(K.SPEC, "SelfTest.tla")],
                         env=e, cwd=k.work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    v = {int(a): b for a, b in re.findall(r'<<"verdict", (\d+), (TRUE|FALSE)>>', out)}
    return v, out


def one(x):
    _, c, _, cfg, module, _ = x
    f = os.path.join(k.work, "one-%d.ndjson" % id(x))
    open(f, "w").write(json.dumps(c) + "\n")
    try:
        return "FALSE" if k.tlc.run(k.work, cfg, module, {"REC": f, "PROP": pid}, workers=1, heap="2g") else "TRUE"
    except K.Error as e:
        return "ERROR " + str(e)


def work():
    while True:
        with lock:
            if not todo:
                return
            traced = todo[-1][4] != "Records.tla"
            batch = [todo.pop()] if traced else [todo.pop() for _ in range(min(20, len(todo)))]
        if traced:
            res = [one(batch[0])]
        else:
            v, out = verdicts(batch)
            res = [v.get(j + 1) or one(batch[j]) for j in range(len(batch))]
        with lock:
            for x, y in zip(batch, res):
                tally[x[0]][y.split()[0]] += 1
                samples.setdefault((x[0], y.split()[0]), (x, y))


ts = [threading.Thread(target=work) for _ in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
tot = collections.Counter()
for s in sorted(tally):
    tot.update(tally[s])
    if set(tally[s]) != {"FALSE"}:
        print("%-60s %s" % (s, dict(tally[s])))
for (s, v), (x, y) in sorted(samples.items(), key=lambda z: z[0]):
    if v == "ERROR":
        print("ERROR at", s, x[2], y[:600])
    elif v == "TRUE" and os.environ.get("SHOW"):
        print("ALLOWED", s, x[2], json.dumps(x[5]["g"])[:600], x[5]["runs"][:1])
print(pid, dict(tot))
import shutil
shutil.rmtree(k.work, ignore_errors=True)
