#!/usr/bin/env python3
"""Mutants of the library: every small edit of a line of /repo/src that still
builds and passes the tests is written as a patch to OUT.
mutate.py OUT [-j N] [FILE...]   (development aid; no check uses it)"""
import os, re, shutil, subprocess, sys, threading, json

a = sys.argv[1:]
OUT = a.pop(0)
J = 6
if a and a[0] == "-j":
    a.pop(0)
    J = int(a.pop(0))
FILES = a or ["grammar/context_free_grammar.rs", "grammar/context_free_grammar_production.rs", "grammar/first_follow_symbols.rs",
              "parser/recursive_descent_parser.rs", "parser/recursive_descent_parser_transitions.rs", "token/token.rs",
              "ast/abstract_syntax_node.rs", "parser/failed_production.rs", "parser/failed_symbol.rs"]
SWAPS = [(r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" > ", " >= "),
         (r" > ", " != "), (r" < ", " != "), (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ 1\b", " + 2"),
         (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.rev\(\)", ""), (r"\|= ", "= "), (r"\+= 1", "+= 2"),
         (r"!(?=[a-z])(?!=)", ""), (r"\bif (?!let)", "if !"), (r"\.ne\(", ".eq("), (r"\.eq\(", ".ne("), (r"\.is_empty\(\)", ".len() == 1"),
         (r"\.push\(", ".insert(0, "), (r"\bSome\((\w+)\)$", "None"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\.pop\(\)", ".first().cloned()"),
         (r"\.iter\(\)", ".iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().rev()"),
         (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\bNone\b", "Some(Default::default())"),
         (r"\bbreak\b", "continue"), (r"\bwhile\b", "if"), (r"initial_token_position", "final_token_position"),
         (r"final_token_position", "initial_token_position"), (r"first_symbols", "follow_symbols"), (r"follow_symbols", "first_symbols"),
         (r"get_epsilon_symbol", "get_initial_symbol"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"),
         (r"is_non_terminal", "is_terminal"), (r"is_terminal", "is_non_terminal"), (r"\.len\(\)", ".len().min(3)"),
         (r"\.clear\(\)", ".pop()"), (r"\.reverse\(\)", ".len()"), (r"can_fix\w*", "true"), (r"single\w*", "true")]


def mutants(src):
    lines = src.split("\n")
    seen = set()
    for i, l in enumerate(lines):
        if l.strip().startswith(("//", "use ", "#", "pub fn", "fn ", "impl", "struct", "pub struct", "enum")):
            continue
        alts = []
        for p, r in SWAPS:
            for m in re.finditer(p, l):
                alts.append(l[:m.start()] + m.expand(r) + l[m.end():])
        if l.rstrip().endswith(";") and not l.strip().startswith(("let ", "return", "}", ")", "]")):
            alts.append("")
        for b in alts:
            t = "\n".join(lines[:i] + [b] + lines[i + 1:])
            if t not in seen and t != src:
                seen.add(t)
                yield i + 1, b.strip(), t
        # drop two or more lines of a statement
        if not l.strip().startswith(("let ", "}", "return")) and not l.rstrip().endswith((";", "{", "}", ",")) and l.strip():
            k = i
            while k < len(lines) - 1 and k < i + 8 and not lines[k].rstrip().endswith(";"):
                k += 1
            if lines[k].rstrip().endswith(";") and k > i and re.match(r"\s*[a-z_.*]+", l):
                t = "\n".join(lines[:i] + lines[k + 1:])
                if t not in seen:
                    seen.add(t)
                    yield i + 1, "(dropped)", t


todo = []
for f in FILES:
    src = open("/repo/src/" + f).read()
    for n, b, t in mutants(src):
        todo.append((f, n, b, t))
print(len(todo), "mutants")
lock = threading.Lock()
left = list(enumerate(todo))
kept = []
os.makedirs(OUT, exist_ok=True)
stat = {"no build": 0, "tests fail": 0, "kept": 0}


def work(w):
    d = "/tmp/mutate/%d" % w
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
    env = dict(os.environ, CARGO_TARGET_DIR=d + "/repo/target", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    while True:
        with lock:
            if not left:
                break
            k, (f, n, b, t) = left.pop(0)
        p = d + "/repo/src/" + f
        old = open(p).read()
        open(p, "w").write(t)
        try:
            x = subprocess.run(["cargo", "test", "--no-run", "--offline"], cwd=d + "/repo", env=env, capture_output=True)
            if x.returncode:
                r = "no build"
            else:
                try:
                    x = subprocess.run(["cargo", "test", "--offline"], cwd=d + "/repo", env=env, capture_output=True, timeout=20)
                    r = "tests fail" if x.returncode else "kept"
                except subprocess.TimeoutExpired:
                    r = "tests fail"
                    subprocess.run(["pkill", "-f", d + "/repo/target/debug/deps/artlr"])
            if r == "kept":
                diff = subprocess.run(["git", "diff"], cwd=d + "/repo", capture_output=True, text=True).stdout
                name = "%03d-%s-%d" % (k, os.path.basename(f)[:-3], n)
                open(os.path.join(OUT, name + ".diff"), "w").write(diff)
                print(name, b[:100], flush=True)
            with lock:
                stat[r] += 1
        finally:
            open(p, "w").write(old)
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=work, args=(w,)) for w in range(J)]
[t.start() for t in ts]
[t.join() for t in ts]
print(stat)
