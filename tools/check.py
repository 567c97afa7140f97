#!/usr/bin/env python3
"""Decides one property.

usage: check.py ID            (VERIF_TIER quick|thorough, VERIF_SEED n)
       check.py --replay FILE
       check.py --setup

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: error of
the check itself.  All verdicts come from TLC evaluating the specification in
/verif/spec, on its own state machines (design) and on what the library did
(records).
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cases as C  # noqa: E402
from sim import G, Machine  # noqa: E402

VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Error(Exception):
    """the check itself failed"""


def sh_env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/cargo/bin:" + e.get("PATH", "")
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "target"), CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_INCREMENTAL="0")
    e.pop("RUSTFLAGS", None)
    return e


# ---------------------------------------------------------------- the library
def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode())
            h.update(open(p, "rb").read())
    h.update(open(os.path.join(REPO, "Cargo.toml"), "rb").read())
    return h.hexdigest()


def build_harness(name="harness"):
    """builds the harness against /repo's working tree; for the shared one, None
    when the library's types cannot be used from several threads"""
    os.makedirs(BUILD, exist_ok=True)
    mark = os.path.join(BUILD, "source.hash")
    now = source_hash()
    if not (os.path.exists(mark) and open(mark).read() == now):
        # cargo looks at modification times only; make sure it looks again
        fp = os.path.join(BUILD, "target", "debug", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith("artlr_syntax-") or d.startswith("harness-"):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bin", name], cwd=os.path.join(VERIF, "harness"), env=sh_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0 and name == "shared" and re.search(r"cannot be (shared|sent) between threads safely", p.stdout):
        return None, p.stdout
    if p.returncode != 0:
        raise Error("the harness does not build:\n" + p.stdout[-3000:])
    open(mark, "w").write(now)
    return os.path.join(BUILD, "target", "debug", name), ""


NO_FS = {"s": "", "ps": []}
# TLC's JSON reader refuses more than 255 levels of nesting
DEPTH = 230


def depth(text):
    d = m = 0
    for ch in re.sub(r'"[^"]*"', "", text):
        if ch in "[{":
            d += 1
            m = max(m, d)
        elif ch in "]}":
            d -= 1
    return m


BLANK = {"obs": [], "res": [], "fatal": "no", "stage": "done", "run": -1, "made": 0, "work": [], "kept": [], "vals": []}
NO_FF = {"first": [], "follow": []}


def bounded():
    """a change that makes the library eat memory must not eat the machine's"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_harness(work, name, cs, limit_ms=10000, prog="harness"):
    """runs the cases; a case that ends the process or does not end is recorded
    as fatal, and the rest goes on in a new process"""
    exe = os.path.join(BUILD, "target", "debug", prog)
    recs = {}
    todo = list(cs)
    fatal = 0
    while todo:
        f_in, f_out, f_pr = (os.path.join(work, name + x) for x in (".in", ".out", ".progress"))
        with open(f_in, "w") as f:
            for c in todo:
                f.write(json.dumps(c) + "\n")
        if os.path.exists(f_out):
            os.unlink(f_out)
        env = sh_env()
        env["HARNESS_LIMIT_MS"] = str(limit_ms // int(os.environ.get("HARNESS_HURRY", "1")))
        p = subprocess.run([exe, f_in, f_out, f_pr], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", cwd=work, preexec_fn=bounded)
        if "harness:" in p.stderr or "harness/src" in p.stderr:
            raise Error("harness: " + p.stderr[-2000:])
        got = {}
        if os.path.exists(f_out):
            for line in open(f_out):
                if line.endswith("\n"):
                    x = json.loads(line)
                    got[x["id"]] = x
        left = []
        for c in todo:
            x = got.get(c["id"])
            if x is None:
                left.append(c)
            else:
                recs[c["id"]] = dict(BLANK, **c, **{k: v for k, v in x.items() if k not in c})
        if p.returncode == 0 and left:
            raise Error("harness lost cases")
        if p.returncode == 3 and fatal > 5:
            break
        if p.returncode not in (0, 3):
            # aborted (stack overflow, for instance) in the first case left
            if not left:
                raise Error("harness exited with %d: %s" % (p.returncode, p.stderr[-500:]))
            pr = open(f_pr).read().split() if os.path.exists(f_pr) else []
            if len(pr) != 3 or int(pr[0]) != left[0]["id"]:
                raise Error("harness exited with %d before any case: %s" % (p.returncode, p.stderr[-500:]))
            c = left.pop(0)
            recs[c["id"]] = dict(BLANK, **c, fatal="abort", stage=pr[1], run=int(pr[2]))
            fatal += 1
        if p.returncode == 3:
            fatal += 1
        todo = left if fatal <= 5 else []
    return [recs[c["id"]] for c in cs if c["id"] in recs]


# ----------------------------------------------------------------------- TLC
class Tlc:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.runs = 0
        self.lock = threading.Lock()

    def run(self, work, cfg, module, env, workers=8, seed=None, timeout=800, heap="5g", extra=()):
        """returns None, or the text of the violation"""
        meta = os.path.join(work, "tlc-%s-%d" % (cfg, time.time_ns()))
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in env.items()})
        cmd = ["java", "-Djava.io.tmpdir=" + work, "-Xss512m", "-Xmx" + heap, "-XX:+UseParallelGC", "-cp", JAR, "tlc2.TLC", "-metadir", meta,
               "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(SPEC, cfg)]
        if seed is not None:
            cmd += ["-seed", str(seed)]
        cmd += list(extra) + [os.path.join(SPEC, module)]
        try:
            p = subprocess.run(cmd, env=e, cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Error("TLC did not finish in %d s: %s" % (timeout, module))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        with self.lock:
            self.runs += 1
            m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
            if m:
                self.states += int(m[-1][0].replace(",", ""))
                self.distinct += int(m[-1][1].replace(",", ""))
        if "No error has been found" in out:
            return None
        m = re.search(r"Error: (Invariant (\S+) is violated|Temporal properties were violated|Deadlock reached|"
                      r"Action property .* is violated|Property .* is violated)", out)
        if m:
            return out[m.start():]
        raise Error("TLC failed on %s:\n%s" % (module, out[max(0, out.find("Error:")):][:3000]))


# -------------------------------------------------------------------- checks
class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.work = os.path.join(BUILD, "work", "%s-%s-%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.tlc = Tlc()
        self.r = random.Random("%s/%s/%d" % (pid, tier, seed))
        self.t0 = time.time()
        self.counts = {}
        self.samples = []
        self.n_id = 0
        self.violations = []
        self.known = []
        self.traces = 0
        self.recs = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def many(self, quick, thorough):
        """numbers of random cases"""
        return 2 * quick if self.quick else 4 * thorough

    def path(self, name):
        return os.path.join(self.work, name)

    # ---- specification side
    def draw(self, kind, n, length=3, seed=None):
        """grammars (and inputs) drawn by TLC from the families"""
        f = self.path("%s-%d.ndjson" % (kind, time.time_ns()))
        v = self.tlc.run(self.work, "Gen.cfg", "Gen.tla", {"GEN_OUT": f, "GEN_KIND": kind, "GEN_N": n, "GEN_L": length},
                         workers=1, seed=self.seed if seed is None else seed)
        if v:
            raise Error("Gen: " + v[:500])
        return f, [json.loads(x) for x in open(f)]

    def design(self, cfg, module, env, **k):
        """model checking of the specification itself; a violation there is an
        error of the specification, not of the library"""
        s, d = self.tlc.states, self.tlc.distinct
        v = self.tlc.run(self.work, cfg, module, env, **k)
        if v:
            raise Error("the specification violates itself (%s): %s" % (module, v[:3000]))

    def behaviours(self, n, length, maxfix, seed=None, workers=4, kind="parse", cfg="MCParser.cfg"):
        """all behaviours of the parser machine on drawn grammars; checked, and
        written out for replay"""
        f, lines = self.draw(kind, n, length, seed)
        out = self.path("behaviours-%d.csv" % time.time_ns())
        self.design(cfg, "MCParser.tla", {"JOBS": f, "MAXFIX": maxfix, "OUT": out}, workers=workers)
        bs = [json.loads(json.loads(x)) for x in open(out)] if os.path.exists(out) else []
        self.count("behaviours_generated", len(bs))
        return lines, bs

    # ---- implementation side
    def observe(self, name, cs, limit_ms=10000, prog="harness"):
        for c in cs:
            self.n_id += 1
            c["id"] = self.n_id
        recs = run_harness(self.work, name, cs, limit_ms, prog)
        self.count("cases", len(cs))
        self.count("runs", sum(len(c["runs"]) for c in cs))
        return recs

    def slim(self, rec):
        """what the specification reads"""
        if self.pid in ("C07", "C08", "C09", "C11"):
            # these read the outcome and the tree
            for v in rec["res"]:
                for y in v:
                    y["fs"], y["calls"], y["fx"], y["flat"] = NO_FS, [], [], []
        elif any(depth(json.dumps(y[f])) > DEPTH for v in rec["res"] for y in v for f in ("fs", "calls", "fx")):
            self.count("records_too_deep")
            return None
        if self.pid in ("C16", "C17"):
            # runs too long to be traced
            s = G(rec["g"])
            rec["long"] = [n + 1 for n, x in enumerate(rec["runs"]) if rec["parsers"][x["p"]] == "solver" and
                           any(Machine(s, x["toks"], v[n]["calls"], 200000).count() is None for v in rec["res"] if n < len(v))]
            self.count("runs_too_long_to_trace", len(rec["long"]))
        return {k: rec[k] for k in ("id", "g", "runs", "parsers", "obs", "res", "fatal", "stage", "run", "dup", "given", "work", "kept", "vals", "folded", "long") if k in rec}

    def judge(self, name, recs, cfg="Records.cfg", module="Records.tla", workers=8):
        """TLC evaluates the property on every record"""
        if not recs:
            return
        f = self.path(name + ".ndjson")
        listed = known_findings(self.pid)
        left = list(recs)
        while left:
            with open(f, "w") as h:
                left = [(x, y) for x, y in ((x, self.slim(x)) for x in left) if y]
                for x, y in left:
                    h.write(json.dumps(y) + "\n")
                left = [x for x, _ in left]
            v = self.tlc.run(self.work, cfg, module, {"REC": f, "PROP": self.pid}, workers=workers)
            if v is None:
                break
            # the record in the last state of the counterexample
            m = re.findall(r"^/\\ i = (\d+)", v, re.M)
            j = re.findall(r"^/\\ job = <<\s*(\d+),\s*(\d+),\s*(\d+)\s*>>", v, re.M)
            if m and int(m[-1]) > 0:
                k, at = int(m[-1]) - 1, None
            elif j:
                k, at = int(j[-1][0]) - 1, [int(x) for x in j[-1]]
            else:
                raise Error("cannot find the record in TLC's counterexample:\n" + v[:2000])
            if self.finding(left[k]) in listed:
                self.known.append(listed[self.finding(left[k])])
                left.pop(k)
                continue
            self.report(left[k], v, cfg, module, at)
            return
        self.traces += sum(max(1, len(x["runs"])) for x in recs)
        self.recs += recs

    def finding(self, rec):
        """identifies a case by what it asks"""
        key = json.dumps([rec["g"], rec["runs"], rec["given"], rec["variants"]], sort_keys=True)
        return hashlib.sha256(key.encode()).hexdigest()[:16]

    def report(self, rec, text, cfg, module, at):
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.pid, self.finding(rec)))
        inv = re.search(r"Invariant (\S+) is violated", text)
        case = {k: v for k, v in rec.items() if k not in BLANK}
        json.dump({"property": self.pid, "cfg": cfg, "module": module, "violated": inv.group(1) if inv else "",
                   "at": at, "finding": self.finding(rec), "case": case, "record": rec}, open(p, "w"), indent=1)
        self.violations.append(p)

    # ---- outcome
    def finish(self):
        cov = {"states": self.tlc.distinct, "transitions": self.tlc.states,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:3] or [sample(x) for x in self.recs[:3]],
               "tlc_runs": self.tlc.runs}
        cov.update(self.counts)
        cov.update(relevance(self.pid, self.recs))
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC and the Rust toolchain are trusted", "observations are made through the public API"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k))
        for p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s seed=%d: %s in %.1f s; %s" % (self.pid, self.tier, self.seed,
              "VIOLATED" if self.violations else "held", ev["wall_s"],
              ", ".join("%s=%s" % (k, v) for k, v in cov.items() if k != "samples")))
        return 1 if self.violations else 0


def known_findings(pid):
    """known: property=<id> case=<hash> <what fails>"""
    out = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def sample(rec):
    s = {"grammar": " ; ".join("%s -> %s" % (p["l"], " ".join(p["r"])) for p in rec["g"]["prods"])[:300],
         "tag": rec["tag"]}
    if rec["runs"] and rec["res"]:
        s["tokens"] = " ".join(rec["runs"][0]["toks"])[:200]
        if rec["res"][0]:
            s["result"] = json.dumps(rec["res"][0][0])[:400]
    elif rec["obs"]:
        s["observed"] = json.dumps(rec["obs"][0])[:400]
    return s


def relevance(pid, recs):
    """how much of what was explored is non-trivial for the property"""
    c = {}

    def add(k, n=1):
        c[k] = c.get(k, 0) + n
    gs = set()
    for x in recs:
        gs.add(json.dumps(x["g"], sort_keys=True))
        for o in x["obs"]:
            add("observations")
            add("grammars_refused", o["build"] == "panic")
        for v in x["res"]:
            for k, y in enumerate(v):
                add("results_" + y["k"])
                add("consultations", len(y["calls"]))
                add("fixes_offered", sum(1 for z in y["calls"] if z["ans"] == "fix"))
    c["distinct_grammars"] = len(gs)
    return c


# ----------------------------------------------------------------- properties
def design_build(k):
    k.design("MCBuild.cfg", "MCBuild.tla", {"MAXP": k.n(2, 3)}, workers=4)


def design_analysis(k):
    f, _ = k.draw("small", k.n(30, 200))
    k.design("MCAnalysis.cfg", "MCAnalysis.tla", {"JOBS": f}, workers=4)
    f, _ = k.draw("small", k.n(40, 300), seed=k.seed + 7)
    k.design("Derive.cfg", "Derive.tla", {"JOBS": f, "BOUND": k.n(5, 6), "SLACK": 3}, workers=4)


def alongside(k, *fs):
    """runs the functions in parallel and passes on the first error"""
    errs = []

    def guard(f):
        try:
            f()
        except BaseException as e:  # noqa: B902
            errs.append(e)
    ts = [threading.Thread(target=guard, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if errs:
        raise errs[0]


def check_build(k):
    cs = C.build_cases(k.r, k.many(4000, 30000), only_ok=False)
    box = {}

    def impl():
        box["r"] = k.observe("build", cs)
        k.judge("build", box["r"], workers=4)
    alongside(k, lambda: design_build(k), impl)


def analysis_sets(k, table, given, reps, variants):
    want = ["obs", "ff"] + (["table"] if table else [])
    _, tiny = k.draw("tiny", 1)
    _, drawn = k.draw("analysis", k.many(1000, 8000))
    if k.quick:
        tiny = k.r.sample(tiny, 1000)
    cs = C.bare_cases(tiny, want, reps=1) + C.bare_cases(drawn, want, reps=reps, variants=variants)
    cs += C.analysis_cases(k.r, k.many(1500, 12000), table, given, variants, reps)
    cs += C.huge_cases(k.r, [0, 1, 2, 3, 4, 5, 6], k.n(7, 28), want)
    cs += C.wide_cases(k.r, k.n(30, 150), want)
    if given:
        for c in cs:
            if c["tag"] in ("drawn", "huge") and k.r.random() < 0.3:
                c["given"] = C.given_sets(k.r, c["g"])
    return cs


def check_analysis(k):
    table = k.pid == "C06"

    def impl():
        cs = analysis_sets(k, table, 0.5 if table else 0, 2, C.TYPES)
        k.judge("analysis", k.observe("analysis", cs), workers=6)
    alongside(k, lambda: design_analysis(k), impl)


def check_same(k):
    def impl():
        cs = C.same_cases(k.r, k.many(600, 5000))
        cs += C.analysis_cases(k.r, k.many(400, 4000), True, 0, C.TYPES, 6)
        cs += C.huge_cases(k.r, [0, 1, 2, 3, 5], k.n(5, 20), ["obs", "ff", "table", "runs"], reps=4)
        cs += C.huge_cases(k.r, [6], k.n(2, 4), ["obs", "ff"], reps=4)
        cs += C.wide_cases(k.r, k.n(12, 60), reps=2)
        k.judge("same", k.observe("same", cs), workers=6)
    alongside(k, lambda: design_analysis(k), impl)


PARSE_KINDS = {"C07": "any", "C08": "any", "C09": "ll1", "C11": "any", "C12": "mix", "C13": "mix", "C14": "ll1"}


def check_parse(k):
    kind = PARSE_KINDS[k.pid]

    def design():
        if k.pid in ("C09", "C14"):
            f, _ = k.draw("ll1", k.n(40, 400), 4, k.seed + 3)
            k.design("MCPredictive.cfg", "MCPredictive.tla", {"JOBS": f}, workers=4)
        lines, bs = k.behaviours(k.n(40, 400), 3, 0, kind="ll1" if k.pid in ("C09", "C14") else "parse")
        cs = C.behaviour_cases(lines, bs)
        recs = k.observe("behaviours", cs)
        k.count("behaviours_reproduced", matched(recs))
        k.judge("behaviours", recs, workers=4)

    def impl():
        cs = C.parse_cases(k.r, k.many(600, 6000), kind=kind)
        cs += C.parse_cases(k.r, k.many(120, 1200), per=4, kind=kind, limit=3000, longest=50, budget=50)
        if k.pid in ("C07", "C08"):
            cs += C.solver_cases(k.r, k.many(60, 600))
            cs += C.long_cases(k.r, k.n(16, 80), k.n(300, 2000))
        if k.pid in ("C11", "C12", "C13"):
            cs += C.parse_cases(k.r, k.many(120, 1200), kind="mix")
        if k.pid in ("C09", "C12", "C13", "C14"):
            cs += C.long_cases(k.r, k.n(24, 80), k.n(150, 300))
        if k.pid in ("C07", "C08", "C11", "C12", "C13"):
            cs += C.long_cases(k.r, k.n(24, 160), k.n(40, 80), back=True)
        deep = ["obs", "ff", "table", "runs"]
        kinds = [0, 1, 2, 3] if k.pid in ("C09", "C14") else [0, 1, 2, 3, 4, 5]
        cs += C.huge_cases(k.r, kinds, k.n(len(kinds), 4 * len(kinds)), deep)
        cs += C.wide_cases(k.r, k.n(36, 150), kinds=["nulls", "terms", "nulls2"] if k.pid in ("C09", "C14") else None)
        cs += C.doubling_cases(k.r, k.n([8, 9, 12], [8, 9, 10, 11, 12, 13, 14]), deep)
        if k.pid in ("C07", "C08"):
            cs += C.doubling_cases(k.r, [17], deep, whole=True)
        if k.pid in ("C07", "C08", "C11", "C12", "C13"):
            cs += C.nest_cases(k.r, k.many(60, 600), 14, 2500)
            cs += C.flat_cases(k.r, k.n(3, 9), 5000, deep)
        if k.pid not in ("C09", "C14"):
            cs += C.doubling_cases(k.r, k.n([8, 9, 16] + [16] * (k.pid == "C11"), [8, 9, 10, 12, 16, 16, 16]), deep, whole=True, tail=True)
        if k.pid == "C14":
            cs += C.parse_cases(k.r, k.many(100, 1000), kind="ll1", longest=20)
        k.judge("random", k.observe("random", cs), workers=4)
    alongside(k, design, impl)


def matched(recs):
    n = 0
    for x in recs:
        for v in x["res"]:
            for e, y in zip(x.get("expect", []), v):
                if e and e["k"] == y["k"] and e["tree"] == y["tree"] and (e["k"] != "err" or e["fs"] == y["fs"]) \
                        and e["fx"] == y["fx"]:
                    n += 1
    return n


def check_total(k):
    def design():
        k.behaviours(k.n(24, 160), 3, 1)
        f, _ = k.draw("parse", k.n(30, 200), 3, k.seed + 11)
        k.design("MCParserLive.cfg", "MCParser.tla", {"JOBS": f, "MAXFIX": 1, "OUT": ""}, workers=4)

    def impl():
        cs = C.hostile_cases(k.r, k.many(800, 8000)) + C.nest_cases(k.r, k.n(40, 400), 30, 20000)
        cs += C.parse_cases(k.r, k.many(100, 1000), per=4, limit=20000, longest=60, budget=60)
        for c in cs:
            c["want"] = ["runs"]
        cs += C.long_cases(k.r, k.n(24, 80), k.n(60, 100), back=True, limit=20000)
        big = C.long_cases(k.r, k.n(24, 120), k.n(8000, 20000))
        big += C.flat_cases(k.r, k.n(3, 9), 100000)
        big += C.doubling_cases(k.r, k.n([8, 12, 17], [8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18]))
        cs += C.huge_cases(k.r, [0, 1, 2, 3, 4, 5], k.n(6, 24), ["runs"], per=6)
        cs += C.wide_cases(k.r, k.n(24, 120), ["runs"])
        recs = k.observe("hostile", cs) + k.observe("long", big, limit_ms=60000)
        for x in recs:
            if x["tag"] in ("long", "doubling"):
                # only the kind of outcome matters here
                for q in x["runs"]:
                    q["toks"], q["lex"] = q["toks"][:1], q["lex"][:1]
            for v in x["res"]:
                for y in v:
                    y["tree"], y["fs"], y["calls"], y["flat"] = [], NO_FS, [], []
            x["obs"] = []
        k.judge("hostile", recs, workers=4)
    alongside(k, design, impl)


def check_solver(k):
    traced = k.pid in ("C16", "C17")
    how = ("Trace%s.cfg" % k.pid, "ParserTrace.tla") if traced else ("Records.cfg", "Records.tla")

    def design():
        lines, bs = k.behaviours(k.n(30, 200), 3, k.n(1, 2))
        cs = C.behaviour_cases(lines, bs)
        recs = k.observe("behaviours", cs)
        k.count("behaviours_reproduced", matched(recs))
        k.judge("behaviours", recs, *how, workers=4)

    def impl():
        cs = C.solver_cases(k.r, k.many(400, 4000))
        cs += C.solver_cases(k.r, k.many(60, 600), per=3, limit=1500, longest=40, budget=40)
        cs += C.huge_solver_cases(k.r, [0, 1, 2, 3, 4], k.n(5, 20))
        cs += C.far_cases(k.r, k.n(36, 120), k.n([70, 140, 300, 600, 1100, 1100, 1100], [40, 70, 140, 300, 600, 1100, 2100]))
        cs += C.far_cases(k.r, k.n(6, 20), [5000, 5000, 12000], flat=True)
        cs += C.wide_cases(k.r, k.n(36, 150), solver=True)
        cs += C.deep_solver_cases(k.r, k.n(12, 60), k.n(100, 200))
        cs += C.jump_cases(k.r, [k.r.randint(250, 300) for _ in range(k.n(12, 60))] + [65534 + k.r.randint(0, 6) for _ in range(k.n(3, 10))])
        k.judge("random", k.observe("random", cs), *how, workers=4)
    alongside(k, design, impl)


def check_session(k):
    def design():
        k.behaviours(k.n(16, 160), 3, 0)

    def impl():
        cs = C.session_cases(k.r, k.many(300, 2500)) + C.soak_cases(k.r, k.n(2, 6), k.n(70000, 200000))
        recs = k.observe("sessions", cs)
        # once more in another process, the runs in the opposite order, every
        # run that is not a baseline before its baseline
        turned = run_harness(k.work, "turned", C.back_to_front(cs))
        by = {x["id"]: x for x in turned}
        for x in recs:
            t = by.get(x["id"])
            if t:
                if t["fatal"] != "no" and x["fatal"] == "no":
                    x.update(fatal=t["fatal"], stage=t["stage"], run=t["run"], res=[])
                for v in t["res"]:
                    w = list(reversed(v))
                    if w not in x["res"]:
                        x["res"].append(w)
        k.judge("sessions", recs, workers=4)
    alongside(k, design, impl)


def check_supplied(k):
    def design():
        lines, bs = k.behaviours(k.n(40, 400), 3, 1, kind="supplied", cfg="MCSupplied.cfg")
        cs = C.behaviour_cases(lines, [b for b in bs if not b["solver"]], supplied=True)
        recs = k.observe("behaviours", cs)
        k.count("behaviours_reproduced", matched(recs))
        k.judge("behaviours", recs, workers=4)

    def impl():
        k.judge("random", k.observe("random", C.supplied_cases(k.r, k.many(700, 7000))), workers=4)
    alongside(k, design, impl)


def check_work(k):
    def design():
        f, _ = k.draw("ll1", k.n(40, 400), 4, k.seed + 3)
        k.design("MCPredictive.cfg", "MCPredictive.tla", {"JOBS": f}, workers=4)
        f, _ = k.draw("ll1", k.n(30, 300), 3, k.seed + 5)
        k.design("MCWork.cfg", "MCWork.tla", {"JOBS": f, "MAXFIX": 1, "OUT": ""}, workers=4)

    def impl():
        cs = C.work_cases(k.r, k.many(250, 2500), k.n(24, 120), k.n(300, 1500))
        for c in C.doubling_cases(k.r, k.n([9, 12], [9, 10, 11, 12, 13, 14])) + C.huge_cases(k.r, [0, 1, 2, 3], k.n(4, 16), ["runs"]):
            c["variants"] = [{"ty": "count"}]
            cs.append(c)
        k.judge("work", k.observe("work", cs), workers=4)
    alongside(k, design, impl)


def check_effort(k):
    def design():
        for kind, n in (("parse", k.n(60, 600)), ("ll1", k.n(30, 300))):
            f, _ = k.draw(kind, n, 3, k.seed + 7)
            k.design("MCWork.cfg", "MCWork.tla", {"JOBS": f, "MAXFIX": 0, "OUT": ""}, workers=4)

    def impl():
        cs = C.effort_cases(k.r, k.many(300, 3000), k.n(24, 120), k.n(120, 300))
        for c in C.huge_cases(k.r, [0, 1, 2, 3, 4, 5], k.n(6, 24), ["runs"]):
            c["variants"] = [{"ty": "count"}]
            cs.append(c)
        k.judge("effort", k.observe("effort", cs), workers=4)
    alongside(k, design, impl)


def check_construction(k):
    def design():
        f, _ = k.draw("small", k.n(30, 200), seed=k.seed + 13)
        k.design("MCAnalysis.cfg", "MCAnalysis.tla", {"JOBS": f}, workers=4)

    def impl():
        cs = C.construction_cases(k.r, k.many(500, 5000), k.n([8, 16, 24, 32, 48, 64, 100, 160], list(range(6, 200, 4))), k.n(12, 36))
        k.judge("construction", k.observe("construction", cs, limit_ms=30000), workers=4)
    alongside(k, design, impl)


def check_shared(k):
    exe, why = build_harness("shared")

    def design():
        f, _ = k.draw("parse", k.n(20, 60), 3, k.seed + 21)
        k.design("MCShared.cfg", "MCShared.tla", {"JOBS": f, "PAIRS": k.n(10, 12)}, workers=4)

    def impl():
        cs = C.shared_cases(k.r, k.many(300, 3000), k.n(4, 8))
        cs += C.shared_cases(k.r, k.n(6, 40), 40) + C.shared_cases(k.r, k.n(2, 10), 140)
        cs += C.shared_deep_cases(k.r, k.n(8, 32), k.n(8000, 12000), k.n(4, 8))
        if exe is None:
            # it cannot be used by threads at all
            os.makedirs(os.path.join(BUILD, "replays"), exist_ok=True)
            p = os.path.join(BUILD, "replays", "C21-not-shareable.txt")
            open(p, "w").write(why)
            k.violations.append(p)
            return
        k.judge("shared", k.observe("shared", cs, 20000, "shared"), workers=4)
    alongside(k, design, impl)


def check_kept(k):
    def design():
        k.behaviours(k.n(30, 200), 3, 1)

    def impl():
        cs = C.kept_cases(k.r, k.many(250, 2500), k.n(16, 80), k.n(300, 1000))
        k.judge("kept", k.observe("kept", cs), workers=4)
    alongside(k, design, impl)


def check_values(k):
    def design():
        k.design("MCValues.cfg", "MCValues.tla", {}, workers=4)

    def impl():
        k.judge("values", k.observe("values", C.value_cases(k.r, k.many(500, 5000))), workers=4)
    alongside(k, design, impl)


CHECKS = {
    "C01": check_build, "C02": check_build, "C03": check_analysis, "C04": check_analysis, "C05": check_same,
    "C06": check_analysis, "C07": check_parse, "C08": check_parse, "C09": check_parse, "C10": check_total,
    "C11": check_parse, "C12": check_parse, "C13": check_parse, "C14": check_parse, "C15": check_solver,
    "C16": check_solver, "C17": check_solver, "C18": check_session,
    "C19": check_supplied, "C20": check_work, "C21": check_shared,
    "C22": check_effort, "C23": check_construction,
    "C24": check_kept, "C25": check_values,
}


def replay(path):
    """runs the case of a replay file again and judges it again"""
    f = json.load(open(path))
    prog = "shared" if f["property"] == "C21" else "harness"
    build_harness(prog)
    k = Check(f["property"], "quick", 0)
    c = f["case"]
    recs = run_harness(k.work, "replay", [c], prog=prog)
    k.judge("replay", recs, f["cfg"], f["module"], workers=1)
    print(json.dumps(recs[0], indent=1)[:6000])
    print("violated again" if k.violations else "not violated")
    shutil.rmtree(k.work, ignore_errors=True)
    return 1 if k.violations else 0


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    if pid == "--setup":
        try:
            build_harness()
            build_harness("shared")
        except Error as e:
            print("ERROR", e)
            return 2
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        build_harness()
        k = Check(pid, tier if tier in ("quick", "thorough") else "quick", seed)
        CHECKS[pid](k)
        return k.finish()
    except Error as e:
        print("ERROR property=%s %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
