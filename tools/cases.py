"""Cases for the harness, per group of properties."""
import random
from sim import G, Machine, TooLong
import gen
from gen import EPS, P, gram, lexemes

NO_FF = {"first": [], "follow": []}


def case(g, want, **k):
    s = G(g)
    unknown = ["?", "S", "q0"]
    c = {"g": g, "q": sorted(set(s.symbols() + unknown)), "want": want, "variants": [], "reps": 1,
         "parsers": ["g"], "runs": [], "dup": False, "folded": [], "tag": "", "given": NO_FF}
    c.update(k)
    return c


def run(toks, lex=None, p=0, **k):
    d = {"p": p, "toks": toks, "lex": lex if lex is not None else list(range(len(toks))),
         "iter": "vec", "fresh": False, "script": [], "eq": -1}
    d.update(k)
    return d


TYPES = [{"ty": "str"}, {"ty": "hash"}, {"ty": "num"}]


# ----------------------------------------------------------- C01, C02: build
def build_cases(r, n, only_ok=False):
    out = []
    for k in range(n):
        m = r.choice([0, 1, 2, 3, 5, 8, 13, 30]) if k % 100 else r.choice([260, 300, 1000])
        nts = ["N%d" % i for i in range(max(1, r.randint(1, max(1, m))))]
        toks = ["t%d" % i for i in range(4 if k % 20 else r.choice([70, 300, 300]))]
        eps = r.choice(["e", "", "t1", "eps"])
        toks = [t for t in toks if t != eps]
        ps = []
        for _ in range(m):
            d = r.random()
            ps.append(P(r.choice(nts), *([eps] if d < 0.15 else
                        [r.choice(nts + toks) for _ in range(r.choice([1, 1, 2, 3, 6]))])))
        if m and r.random() < 0.3:
            ps.append(P(ps[0]["l"], *ps[0]["r"]))
        if m and k % 12 == 0:
            # a long output, some symbols late in it only
            w = [r.choice(nts + toks) for _ in range(r.choice([20, 40, 70, 140, 300]))]
            for x in ("u0", "u1", "u2"):
                w.insert(len(w) - r.randint(0, len(w) // 3), x)
            ps.insert(r.randint(0, len(ps)), P(r.choice(nts), *w))
        if not only_ok and r.random() < 0.6:
            # one or two offending productions, anywhere in the list
            for _ in range(r.choice([1, 1, 2])):
                d = r.random()
                l = r.choice(nts)
                fill = [r.choice(nts + toks) for _ in range(r.randint(1, 4) if r.random() < 0.8 else r.choice([20, 40, 70, 140, 300]))]
                if d < 0.25:
                    bad = P(eps, *fill)
                elif d < 0.35:
                    bad = P(eps, eps)
                elif d < 0.55:
                    bad = P(l)
                elif d < 0.6:
                    bad = P(eps)
                elif d < 0.65:
                    bad = P(l, eps, eps)
                else:
                    fill.insert(r.randint(0, len(fill)), eps)
                    bad = P(l, *fill)
                ps.insert(r.randint(0, len(ps)), bad)
        start = r.choice([nts[0], nts[0], nts[-1], "Z", "t0"])
        out.append(case(gram(ps, start, eps), ["obs"], variants=TYPES, reps=2, tag="build"))
    return out


# ------------------------------------------------------- C03 - C06: analysis
def analysis_cases(r, n, table=False, given=0.0, variants=TYPES, reps=2):
    out = []
    for k in range(n):
        g = gen.any_grammar(r)
        c = case(g, ["obs", "ff"] + (["table"] if table else []), variants=variants, reps=reps, tag="analysis")
        if table and r.random() < given:
            c["given"] = given_sets(r, g)
        out.append(c)
    return out


def given_sets(r, g):
    """FIRST and FOLLOW sets that need not be those of the grammar"""
    s = G(g)
    if r.random() < 0.6:
        return altered_sets(r, s.analyse())
    first = [{"s": x, "v": [x]} for x in sorted(s.term)]
    follow = []
    for x in s.nt:
        v = [t for t in s.tok if r.random() < 0.4]
        if r.random() < 0.4:
            v.append(s.eps)
        first.append({"s": x, "v": v})
        follow.append({"s": x, "v": [t for t in s.tok if r.random() < 0.4]})
    return {"first": first, "follow": follow}


def altered_sets(r, s):
    """the sets of the grammar with a few members added or removed"""
    def alter(v, more, p):
        v = set(v)
        for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if r.random() < p else 0):
            x = r.choice(more)
            v ^= {x}
        return sorted(v)
    p = r.choice([0.2, 0.5, 1])
    first = [{"s": x, "v": [x]} for x in sorted(s.term)]
    follow = []
    if s.tok:
        first += [{"s": x, "v": alter(s.first[x], s.tok + [s.eps], p)} for x in s.nt]
        follow = [{"s": x, "v": alter(s.follow[x], s.tok, p)} for x in s.nt]
    else:
        first += [{"s": x, "v": sorted(s.first[x])} for x in s.nt]
        follow = [{"s": x, "v": sorted(s.follow[x])} for x in s.nt]
    return {"first": first, "follow": follow}


def supplied_cases(r, n, per=7, limit=1500):
    """C19: parsers made from supplied sets"""
    out = []
    while len(out) < n:
        g = gen.parsable(r)
        given = given_sets(r, g)
        own = G(g).analyse()
        s = G(g).supply(given)
        ws = gen.inputs(r, s, per - 2, limit) + gen.inputs(r, s, 2, limit, 40, 40)
        if not ws or not own.tok:
            continue
        rs = []
        for w in ws:
            lex = lexemes(r, len(w))
            rs.append(run(w, lex, p=0))
            if r.random() < 0.3:
                rs.append(run(w, lex, p=0, fresh=True))
        out.append(case(g, ["runs"], parsers=["given"], runs=rs, given=given, tag="supplied",
                        variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}]))
    return out


def bare_cases(lines, want, **k):
    return [case(l["g"], want, tag="drawn", **k) for l in lines]


def interleave(r, prods):
    """the same productions, the symbols interleaved differently"""
    groups = {}
    for p in prods:
        groups.setdefault(p["l"], []).append(p)
    left = [list(v) for v in groups.values()]
    out = []
    while left:
        v = r.choice(left)
        out.append(v.pop(0))
        left = [x for x in left if x]
    return out


def repeated(r, prods):
    """some productions repeated, after their first occurrence"""
    out = list(prods)
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(out))
        out.insert(r.randint(i + 1, len(out)), dict(out[i]))
    return out


def same_cases(r, n):
    """C05: the same grammar in different clothes"""
    out = []
    for k in range(n):
        dup = k % 3 == 2
        parse = k % 2 == 0
        g = gen.parsable(r) if parse else gen.any_grammar(r)
        var = []
        for ty in ("str", "hash", "num"):
            var.append({"ty": ty, "prods": g["prods"]})
            var.append({"ty": ty, "prods": repeated(r, g["prods"]) if dup else interleave(r, g["prods"])})
        c = case(g, ["obs", "ff", "table"] + (["runs"] if parse else []), variants=var, reps=4, dup=dup, tag="same")
        if parse:
            c["runs"] = [run(w, lexemes(r, len(w))) for w in gen.inputs(r, G(g), 5, limit=300)]
        out.append(c)
    return out


# --------------------------------------------------------- C07 - C14: parsing
def parse_cases(r, n, per=8, kind="any", limit=1200, longest=14, budget=25):
    out = []
    for k in range(n):
        ll1 = kind == "ll1" or (kind == "mix" and k % 2 == 0)
        g = gen.parsable(r, want_ll1=ll1, marked=(kind == "ll1m") or (ll1 and r.random() < 0.8))
        s = G(g)
        ws = gen.inputs(r, s, per, limit, longest, budget)
        if not ws:
            continue
        rs = [run(w, lexemes(r, len(w)), iter=r.choice(["vec", "vec", "bare", "chain", "hint"])) for w in ws]
        out.append(case(g, ["obs", "ff", "table", "runs"], runs=rs, tag="parse",
                        variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}]))
    return out


def long_cases(r, n, size, back=False, limit=6000):
    """long and deep inputs, mostly sentences, of LL(1) grammars or of others"""
    out = []
    makers = [
        (gen.REAL_LL1[0], lambda m: ["["] * m + ["n"] + ["]"] * m + ["z"]),
        (gen.REAL_LL1[0], lambda m: ["["] + ["n", ","] * m + ["n", "]", "z"]),
        (gen.REAL_LL1[1], lambda m: ["i", "+", "(", "i", "*"] * m + ["i"] + [")"] * m + ["z"]),
        (gen.REAL_LL1[2], lambda m: ["w", "(", "i", ")"] * m + ["i", "=", "n", ";"] + ["z"]),
        (gen.REAL_LL1[2], lambda m: ["i", "=", "X"[:0] or "n", ";"] * m + ["z"]),
        (gen.REAL_LL1[4], lambda m: ["(", ")"] * 0 + ["("] * m + [")"] * m + ["z"]),
        (gen.REAL_LL1[5], lambda m: ["a"] * m + ["c"] * m + ["z"]),
        (gen.REAL_LL1[8], lambda m: ["x"] * m + ["y"] * m + ["z"]),
    ]
    if back:
        makers = [
            (gen.REAL_BACK[2], lambda m: ["i", ","] * m + ["i"] + ["z"][:r.randint(0, 1)]),
            (gen.REAL_BACK[3], lambda m: ["a"] * r.randint(0, 4) + ["b"] * m + ["c", "z"]),
            (gen.REAL_BACK[5], lambda m: ["if", "c"] * r.randint(0, 6) + ["o"] + ["el", "o"] * r.randint(0, 3)),
            (gen.REAL_BACK[6], lambda m: ["d"] * r.randint(1, min(m, 20)) + ["d", "d", "f", "z"]),
            (gen.REAL_BACK[8], lambda m: ["a"] * m + ["b"] * r.randint(0, 1)),
            (gen.REAL_BACK[9], lambda m: ["i", r.choice(["*", "+"])] * r.randint(1, min(m, 8)) + ["i"]),
            (gram([P("S", "L", "z"), P("L", "I", "L"), P("L", "I"), P("I", "a", "b"), P("I", "a")]),
             lambda m: [x for _ in range(m) for x in r.choice([["a"], ["a", "b"]])] + ["z"]),
            (gram([P("S", "N", "S"), P("S", "z"), P("N", "n", "n"), P("N", "n", "m"), P("N", "n")]),
             lambda m: [r.choice("nm") if j else "n" for j in range(m)] + ["z"]),
        ]
    for k in range(n):
        g, f = makers[k % len(makers)]
        w = f(r.randint(size // 2, size))
        if r.random() < 0.4:
            i = r.randrange(len(w))
            w = w[:i] if r.random() < 0.5 else w[:i] + [r.choice(G(g).tok)] + w[i:]
        if not w:
            continue
        if back:
            try:
                G(g).parse(w, limit)
            except (TooLong, RecursionError):
                continue
        out.append(case(g, ["obs", "ff", "table", "runs"], runs=[run(w, lexemes(r, len(w)))], tag="long"))
    return out


def damage(r, s, w):
    """changes a token or two, or cuts the input"""
    w = list(w)
    for _ in range(r.choice([0, 1, 1, 2])):
        d = r.random()
        i = r.randrange(len(w))
        if d < 0.3 and len(w) > 1:
            del w[i]
        elif d < 0.6:
            w.insert(i, r.choice(s.tok))
        elif d < 0.8:
            w[i] = r.choice(s.tok)
        elif i:
            w = w[:i]
    return w


def huge_cases(r, kinds, n, want, per=3, limit=30000, **k):
    """grammars with more than 256 of something"""
    out = []
    for j in range(n):
        g = gen.huge_grammar(r, kinds[j % len(kinds)])
        s = G(g)
        rs = []
        if "runs" in want:
            for _ in range(per * 3):
                w = gen.sentence(r, s, r.choice([5, 600]))
                if w is not None and len(w) < 2000:
                    w = damage(r, s, w)
                    try:
                        s.parse(w, limit)
                    except (TooLong, RecursionError):
                        continue
                    rs.append(run(w, lexemes(r, len(w))))
                if len(rs) == per:
                    break
            if not rs:
                continue
        out.append(case(g, want, runs=rs, tag="huge", variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}], **k))
    return out


def wide_cases(r, n, want=("obs", "ff", "table", "runs"), kinds=None, solver=False, limit=30000, widths=None, **k):
    """many of something in one place, and inputs that need the last of them"""
    out = []
    kinds = kinds or gen.WIDE_KINDS
    j = 0
    while len(out) < n:
        j += 1
        kind, size = kinds[j % len(kinds)], r.choice(widths or gen.WIDTHS) + r.randint(0, 4)
        if kind == "nulls" and "obs" in want and size > 70:
            size = r.randint(34, 70)  # the table grows with the square of it
        g, ws = gen.widely(r, kind, size)
        s = G(g)
        rs = []
        for w in ws if "runs" in want else []:
            try:
                if w:
                    s.parse(w, limit)
                else:
                    continue
            except (TooLong, RecursionError):
                continue
            lex = lexemes(r, len(w))
            rs.append(run(w, lex))
            if solver:
                rs.append(run(w, lex, p=1))
                rs.append(run(w, lex, p=1, script=script(r, s, w)))
        if "runs" in want and not rs:
            continue
        out.append(case(g, list(want), runs=rs, tag="huge", parsers=["g", "solver"] if solver else ["g"],
                        variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}], **k))
    return out


def doubling_cases(r, depths, want=("runs",), whole=False, tail=False):
    """very many tokens"""
    out = []
    for d in depths:
        g = gen.doubling(r, d, tail=tail)
        w = [r.choice("tu") for _ in range(2 ** d)] + (r.choice([["a", "b", "z"]] * 5 + [["a", "a", "b", "z"], ["a", "b", "b", "z"], ["a", "z"]]) if tail else ["z"])
        if not whole and r.random() < 0.5:
            i = r.choice([len(w) - 1, len(w) - 2, r.randrange(len(w))])
            w = w[:i] if r.random() < 0.5 else w[:i] + ["z"] + w[i:]
        # little nesting, and so a small stack is enough
        out.append(case(g, list(want), runs=[run(w, list(range(len(w))))], tag="doubling", variants=[{"ty": "num"}],
                        stack=(4 << 20) + d * (64 << 10)))
    return out


def nest_cases(r, n, depth, limit, per=3, want=("obs", "ff", "table", "runs"), most=12):
    """choices nested in each other, as deep as the search for them allows"""
    out = []
    while len(out) < n:
        g, pre, mid, post = gen.nest_grammar(r)
        s = G(g).analyse()
        if s.left_recursive():
            continue
        rs = []
        for _ in range(per):
            d = r.randint(depth // 2, depth)
            while d > 2:
                w = gen.nest_input(r, d, pre, mid, post)
                try:
                    s.parse(w, limit)
                    rs.append(run(w, lexemes(r, len(w))))
                    break
                except (TooLong, RecursionError):
                    d = d * 3 // 4
        if rs:
            out.append(case(g, list(want), runs=rs, tag="nest", variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}]))
    return out


def flat_cases(r, n, size, want=("runs",)):
    """a production with very many symbols: no nesting at all"""
    out = []
    for k in range(n):
        g = gen.flat_grammar(r, size + r.randint(0, 20))
        w = [x if x != "N" else r.choice("nk") for x in g["prods"][0]["r"]]
        if k % 3 == 1:
            i = r.choice([len(w) - 1, len(w) - 2, r.randrange(len(w))])
            w = w[:i] if r.random() < 0.5 else w[:i] + ["z"] + w[i + 1:]
        out.append(case(g, list(want), runs=[run(w, list(range(len(w))))], tag="doubling", variants=[{"ty": "num"}],
                        stack=(4 << 20) + (64 << 10)))
    return out


def hostile_cases(r, n, per=10):
    """C10: truncations at every place, extra and unknown tokens, no candidates"""
    out = []
    for k in range(n):
        g = gen.parsable(r)
        if r.random() < 0.1:
            g = dict(g, start="Zz")  # an initial symbol without productions
        s = G(g)
        ws = [[]]
        w = gen.sentence(r, s, 10) if s.start in s.nts else None
        if w and len(w) <= 16:
            ws += [w[:i] for i in range(1, len(w) + 1)]
            ws += [w[:i] + [x] + w[i:] for i in (0, len(w) // 2, len(w)) for x in (s.eps, "?", s.start)]
        junk = s.tok + [s.eps, "?", s.start, s.nt[0]]
        ws += [[r.choice(junk) for _ in range(r.randint(1, 8))] for _ in range(per)]
        ok = []
        for w in ws:
            try:
                if w:
                    s.parse(w, 20000)
                ok.append(w)
            except (TooLong, RecursionError):
                pass
        par = ["g", "ff", "solver"]
        rs = [run(w, lexemes(r, len(w)), p=r.choice([0, 0, 1, 2]), iter=r.choice(["vec", "bare", "chain", "list", "hint"]),
                  script=script(r, s, w) if r.random() < 0.5 else []) for w in ok]
        out.append(case(g, ["runs"], parsers=par, runs=rs, tag="hostile", variants=[{"ty": r.choice(["str", "hash"])}]))
    return out


# --------------------------------------------------------- C15 - C17: solver
_gap = [0]


def gap(r, s):
    _gap[0] += 1
    return {"k": "gap", "t": [], "fx": [], "st": [1000 + _gap[0]], "ss": [r.choice(s.tok)] if s.tok else []}


def leaf_part(r, s):
    return {"k": "ok", "t": [{"s": r.choice(s.tok), "x": r.randint(500, 600), "c": []}], "fx": [], "st": [], "ss": []}


def parts(r, s):
    v = [gap(r, s)]
    if r.random() < 0.25:
        v.append(leaf_part(r, s))
    if r.random() < 0.2:
        v.insert(0, {"k": "fix", "t": [], "fx": [{"s": r.choice(s.nt), "parts": [gap(r, s)]}], "st": [], "ss": []})
    if r.random() < 0.05:
        v = []
    return v


def answer(r, s, toks):
    d = r.random()
    a = {"ans": "fix", "mode": "abs", "to": 0, "parts": parts(r, s)}
    if d < 0.3:
        a.update(mode="rel", to=r.choice([0, 1, 1, 2, 3]))
    elif d < 0.6 and s.tok:
        a.update(mode=r.choice(["sync", "before"]), sync=r.choice(s.tok))
    elif d < 0.65:
        a.update(mode="rel", to=-1)
    else:
        a.update(mode="abs", to=r.randint(0, len(toks) + 1))
    return a


def script(r, s, toks):
    n = r.choice([0, 1, 1, 2, 3, 5, 8])
    return [answer(r, s, toks) if r.random() < 0.6 else {"ans": "no"} for _ in range(n)]


def solver_grammar(r):
    """mostly single candidates on the way down, so that fixes are allowed"""
    d = r.random()
    if d < 0.37:
        return gen.parsable(r, want_ll1=True)
    if d < 0.45:
        return gen.rematch_grammar(r)
    if d < 0.6:
        # one candidate nearly everywhere: fixes are allowed deep down
        return gen.layered(r, r.randint(4, 10), r.randint(3, 6), r.choice([1, 1, 2]), r.randint(2, 4), 0.1, r.random() < 0.7)
    if d < 0.65:
        return gen.scale_grammar(r, r.choice([0, 2, 5]))
    if d < 0.8:
        return gen.layered(r, r.randint(3, 6), r.randint(2, 5), 2, 4, 0.25, True)
    return gen.parsable(r)


def solver_cases(r, n, per=6, twins=True, limit=500, longest=10, budget=25):
    out = []
    while len(out) < n:
        g = solver_grammar(r)
        s = G(g).analyse()
        if s.left_recursive() or not s.tok:
            continue
        ws = gen.inputs(r, s, per, limit, longest, budget)
        rs = []
        for w in ws:
            lex = lexemes(r, len(w))
            if twins:
                rs.append(run(w, lex))
            for _ in range(r.choice([1, 2, 3])):
                rs.append(run(w, lex, p=1, script=script(r, s, w)))
        if rs:
            out.append(case(g, ["obs", "ff", "table", "runs"], parsers=["g", "solver"], runs=rs, tag="solver",
                            variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}]))
    return out


def behaviour_cases(lines, behaviours, supplied=False):
    """behaviours generated by the parser machine, as cases: same inputs, and
    the solver answers what it answered in the behaviour"""
    by = {}
    for b in behaviours:
        by.setdefault(b["c"], []).append(b)
    out = []
    for c, bs in sorted(by.items()):
        l = lines[c - 1]
        bs.sort(key=lambda b: (b["n"], b["solver"], str(b["log"])))
        for i in range(0, len(bs), 60):
            rs, want = [], []
            for b in bs[i:i + 60]:
                w = l["inputs"][b["n"] - 1]
                lex = list(range(1, len(w) + 1))
                if b["solver"] and not any(x["toks"] == w and x["p"] == 0 for x in rs):
                    rs.append(run(w, lex))
                    want.append(None)
                sc = [{"ans": "no"} if x["ans"] == "no" else
                      {"ans": "fix", "mode": "abs", "to": x["to"], "parts": x["parts"]} for x in b["log"]]
                rs.append(run(w, lex, p=1 if b["solver"] else 0, script=sc))
                want.append(b)
            out.append(case(l["g"], ["runs"] if supplied else ["obs", "ff", "table", "runs"],
                            parsers=["given"] if supplied else ["g", "solver"], runs=rs, tag="behaviour",
                            given=l["given"] if supplied else NO_FF,
                            expect=[b["result"] if b else None for b in want]))
    return out


def huge_solver_cases(r, kinds, n, per=2):
    """solvers, and grammars with more than 256 of something"""
    out = huge_cases(r, kinds, n, ["obs", "ff", "table", "runs"], per=per)
    for c in out:
        s = G(c["g"])
        c["parsers"] = ["g", "solver"]
        c["runs"] += [dict(x, p=1, script=script(r, s, x["toks"])) for x in c["runs"]]
    return out


def jump_cases(r, dists):
    """fixes that resume far along, after which the parse goes on there"""
    out = []
    for dist in dists:
        g = gen.parsable(r) if r.random() < 0.4 else solver_grammar(r)
        s = G(g).analyse()
        if s.left_recursive() or not s.tok or g["start"] not in s.nts:
            continue
        h = gram([P("S0", "J0", g["start"], *(["z0"] if r.random() < 0.5 else [])), P("J0", "j0", "k0")] + g["prods"], "S0", g["eps"])
        t = G(h).analyse()
        if t.left_recursive():
            continue
        rs = []
        ws = gen.inputs(r, s, 16, 500, 10, 25)
        # failures with choices made in another way on the way there first
        worth = {tuple(w): (s.parse(w, 500)[0], s.again == 0) for w in ws}
        ws = sorted(ws, key=lambda w: worth[tuple(w)])
        won = [w for w in ws if worth[tuple(w)] == (True, False)]
        for w in ws[:2] + won[:1]:
            v = ["j0"] * dist + w + ["z0"] * r.randint(0, 1)
            lex = list(range(len(v)))
            rs.append(run(v, lex))
            rs.append(run(v, lex, p=1, script=[{"ans": "fix", "mode": "abs", "to": dist, "parts": parts(r, s)}] + script(r, s, v)))
        out.append(case(h, ["obs", "ff", "table", "runs"], parsers=["g", "solver"], runs=rs, tag="jump",
                        variants=[{"ty": "num"}]))
    return out


def far_cases(r, n, dists, flat=False):
    """solvers consulted far along, without any fix that leads there"""
    out = []
    while len(out) < n:
        g = gen.rematch_grammar(r) if r.random() < 0.6 else gen.parsable(r) if r.random() < 0.5 else solver_grammar(r)
        s = G(g).analyse()
        if s.left_recursive() or not s.tok or g["start"] not in s.nts:
            continue
        dist = r.choice(dists)
        if flat or r.random() < 0.5:
            j = [P("J0", *(["j0"] * dist))]
        else:
            b = 1
            while 2 ** b < dist:
                b += 1
            dist = 2 ** b
            j = [P("D%d" % k, *["D%d" % (k + 1) if k + 1 < b else "j0"] * 2) for k in range(b)] + [P("J0", "D0")]
        h = gram([P("S0", "J0", g["start"], *(["z0"] if r.random() < 0.7 else []))] + j + g["prods"], "S0", g["eps"])
        t = G(h).analyse()
        if t.left_recursive():
            continue
        rs = []
        ws = gen.inputs(r, s, 16, 500, 10, 25)
        # failures with choices made in another way on the way there first
        worth = {tuple(w): (s.parse(w, 500)[0], s.again == 0) for w in ws}
        for w in sorted(ws, key=lambda w: worth[tuple(w)])[:2]:
            v = ["j0"] * dist + w + ["z0"] * r.randint(0, 1)
            lex = list(range(len(v)))
            rs.append(run(v, lex))
            rs.append(run(v, lex, p=1, script=script(r, s, w) if r.random() < 0.5 else []))
        if rs:
            out.append(case(h, ["obs", "ff", "table", "runs"], parsers=["g", "solver"], runs=rs, tag="far",
                            variants=[{"ty": "num"}]))
    return out


def deep_solver_cases(r, n, depth, limit=12000):
    """solvers consulted deep down, where every level has a single candidate"""
    out = []
    chains = [
        (gram([P("S", "a", "S"), P("S", "z")]), lambda m: ["a"] * m),
        (gram([P("S", "A", "z"), P("A", "a", "A"), P("A", EPS)]), lambda m: ["a"] * m + ["b"]),
        (gram([P("S", "a", "S", "b"), P("S", "c")]), lambda m: ["a"] * m + ["c"] + ["b"] * r.randint(0, m - 1)),
        (gram([P("S", "N", "T"), P("T", "S"), P("T", EPS), P("N", "n")]), lambda m: ["n"] * m + ["?"]),
    ]
    cs = []
    for k in range(max(4, n // 3)):
        g, f = chains[k % len(chains)]
        cs.append(case(g, ["obs", "ff", "table", "runs"], runs=[run(f(r.randint(depth // 2, depth)), []) for _ in range(2)]))
    for c in cs + long_cases(r, n, depth) + nest_cases(r, n // 2, depth // 4, 800, per=2):
        s = G(c["g"])
        rs = []
        for x in c["runs"]:
            w = damage(r, s, x["toks"]) if r.random() < 0.5 else x["toks"]
            if not w or Machine(s, w, [], 150000).count() is None:
                continue
            lex = list(range(len(w)))
            rs.append(run(w, lex))
            rs.append(run(w, lex, p=1))
            if r.random() < 0.7:
                sc = [{"ans": "no"}] * r.choice([0, 0, 1, 2, 5, depth // 2]) + script(r, s, w)
                rs.append(run(w, lex, p=1, script=sc))
        if rs:
            c.update(parsers=["g", "solver"], runs=rs, tag="deep")
            out.append(c)
    return out


# ------------------------------------------------------------- C18: sessions
def session_cases(r, n, length=30):
    out = []
    while len(out) < n:
        g = gen.parsable(r) if r.random() < 0.6 else solver_grammar(r)
        s = G(g).analyse()
        if s.left_recursive() or not s.tok:
            continue
        ws = gen.inputs(r, s, 5, 300, 10) + gen.inputs(r, s, 2, 600, 60, 60)
        if len(out) % 40 == 39:
            # inputs of a few hundred tokens and more
            c = (huge_cases(r, [0, 1, 3], 1, ["runs"], per=3) or doubling_cases(r, [9]))[0]
            if len(out) % 3 == 0:
                c = doubling_cases(r, [9])[0]
            g = c["g"]
            s = G(g).analyse()
            ws = [x["toks"] for x in c["runs"]]
            ws.append(damage(r, s, ws[0]))
        if not ws:
            continue
        rs = []
        base = []  # (run index, toks, lex, script or None)
        for w in ws:
            lex = lexemes(r, len(w))
            base.append((len(rs), w, lex, None))
            rs.append(run(w, lex, fresh=True))
            if r.random() < 0.7:
                sc = script(r, s, w)
                base.append((len(rs), w, lex, sc))
                rs.append(run(w, lex, p=2, fresh=True, script=sc))
        base.append((len(rs), [], [], None))
        rs.append(run([], [], fresh=True))
        # parses that a panic of the iterator or of the solver cuts short
        cut = {}
        if r.random() < 0.5:
            b = r.choice(base[:-1])
            cut[len(rs)] = "panics"
            base.append((len(rs), b[1], b[2], None))
            rs.append(run(b[1], b[2], fresh=True, iter="panics"))
        if r.random() < 0.5:
            b = r.choice(base[:-1])
            sc = script(r, s, b[1])[:r.randint(0, 3)] + [{"ans": "panic"}]
            base.append((len(rs), b[1], b[2], sc))
            rs.append(run(b[1], b[2], p=2, fresh=True, script=sc))
        for _ in range(10 if len(out) % 40 == 39 else length if len(out) % 12 else 10 * length):
            b, w, lex, sc = r.choice(base)
            if sc is None:
                p = r.choice([0, 0, 1, 2, 3])
                rs.append(run(w, lex, p=p, iter=cut.get(b) or r.choice(["vec", "bare", "chain", "list", "hint"]), eq=b))
            else:
                rs.append(run(w, lex, p=r.choice([2, 3]), script=sc, iter=r.choice(["vec", "bare", "chain", "list", "hint"]), eq=b))
        out.append(case(g, ["runs"], parsers=["g", "ff", "solver", "solver"], runs=rs, tag="session",
                        variants=[{"ty": r.choice(["str", "own", "hash", "num"])}]))
    return out


def soak_cases(r, n, times):
    """very many parses with one parser"""
    out = []
    while len(out) < n:
        for c in session_cases(r, 8, 12):
            if len(out) < n and c["tag"] == "session" and all(len(x["toks"]) <= 6 for x in c["runs"]):
                out.append(dict(c, soak=times, tag="soak"))
    return out


def back_to_front(cases):
    """the same cases with their runs in the opposite order, for another process"""
    out = []
    for c in cases:
        n = len(c["runs"])
        d = dict(c)
        d["runs"] = [c["runs"][n - 1 - k] for k in range(n)]
        out.append(d)
    return out


# ---------------------------------------------------------------- C20: work
def work_cases(r, n, longs, size):
    out = parse_cases(r, n, per=5, kind="ll1", limit=3000, longest=40, budget=40) + long_cases(r, longs, size)
    for c in out:
        # with a solver too; what it is worth is looked at for inputs that parse
        c["want"] = ["runs"]
        c["variants"] = [{"ty": "count"}]
        c["parsers"] = ["g", "solver"]
        for x in c["runs"]:
            x["iter"] = "vec"
        if c["tag"] == "long" and len(c["runs"][0]["toks"]) > 200:
            continue
        c["runs"] += [dict(x, p=1) for x in c["runs"]]
    return out


def effort_cases(r, n, longs, size):
    """C22: any grammar; solvers that decline everything, also deep down"""
    out = parse_cases(r, n, per=5, kind="any", limit=3000, longest=30, budget=40)
    out += parse_cases(r, n // 3, per=4, kind="ll1", limit=3000, longest=40, budget=40)
    out += solver_cases(r, n // 3, per=4, twins=False, limit=1500, longest=30, budget=30)
    out += long_cases(r, longs, size) + long_cases(r, longs, 40, back=True)
    out += nest_cases(r, n // 3, 24, 6000)
    for c in out:
        c.update(want=["runs"], variants=[{"ty": "count"}], parsers=["g", "solver"])
        seen = []
        for x in c["runs"]:
            if x["toks"] not in seen:
                seen.append(x["toks"])
        c["runs"] = [run(w, p=p) for w in seen for p in (0, 1) if p == 0 or len(w) <= 120]
    return out


def construction_cases(r, n, sizes, big):
    """C23: grammars in which careless analysis is slow: shared subterms,
    chains, nullable runs, recursion through everything"""
    gs = [("any", gen.any_grammar(r)) for _ in range(n)]
    for m in sizes:
        gs += [("chain", gen.chain(r, m)), ("run", gen.nullable_run(r, min(m, 60))), ("shared", gen.shared_grammar(r, m)),
               ("tangle", gen.tangle(r, min(m, 60)))]
    gs += [("scale", gen.scale_grammar(r)) for _ in range(n // 10)]
    gs += [("flat", gen.flat_grammar(r, m)) for m in (2000, 20000)[:1 + big // 12]]
    gs += [("huge", gen.huge_grammar(r, j % 6)) for j in range(big)]
    return [case(g, ["work"], reps=2, tag=t) for t, g in gs]


# ------------------------------------------------- C21: parses side by side
def shared_cases(r, n, threads):
    out = []
    while len(out) < n:
        g = gen.parsable(r) if r.random() < 0.6 else solver_grammar(r)
        s = G(g).analyse()
        if s.left_recursive() or not s.tok:
            continue
        ws = gen.inputs(r, s, 6, 300, 10) + gen.inputs(r, s, 2, 600, 40, 40)
        if len(ws) < 2:
            continue
        rs = [run(w, lexemes(r, len(w))) for w in ws]
        if r.random() < 0.2:
            rs.append(run([], []))
        out.append(case(g, ["runs"], runs=rs, threads=threads, rounds=3, tag="shared",
                        variants=[{"ty": r.choice(["str", "hash", "num", "own", "own"])}]))
    return out


def shared_deep_cases(r, n, size, threads):
    """deep nesting in several parses at once"""
    out = long_cases(r, n, size)
    for c in out:
        c.update(want=["runs"], threads=threads, rounds=2, tag="shared", variants=[{"ty": "num"}])
        c["runs"].append(run(["?"], [1]))
    return out


def kept_cases(r, n, longs, size):
    """C24: every parse three times in a row with the same parser"""
    out = []
    while len(out) < n:
        if r.random() < 0.05:
            c = r.choice([x for x in build_cases(r, 6) if x["tag"] != "ok"] or build_cases(r, 1))
            out.append(case(c["g"], ["runs", "kept"], runs=[], variants=[{"ty": "count"}], tag="refused"))
            continue
        g = gen.parsable(r) if r.random() < 0.5 else solver_grammar(r)
        s = G(g).analyse()
        if s.left_recursive() or not s.tok:
            continue
        rs = []
        for w in gen.inputs(r, s, 6, 400, 10) + [[]]:
            lex = lexemes(r, len(w))
            for p in r.sample([0, 1, 2, 2, 2], 2):
                sc = script(r, s, w) if p == 2 else []
                if p == 2 and r.random() < 0.15:
                    sc = sc[:r.randint(0, 3)] + [{"ans": "panic"}]
                it = r.choice(["vec", "vec", "bare", "chain", "list", "panics"])
                for k in range(3):
                    rs.append(run(w, lex, p=p, script=sc, iter=it, kept=True, same=k == 2))
        out.append(case(g, ["runs", "kept"], parsers=["g", "ff", "solver"], runs=rs,
                        variants=[{"ty": "count"}], tag="kept"))
    # deep ones end with the process when what they return is freed recursively
    # on a small stack; the harness has a large one
    big = long_cases(r, longs, size) + huge_cases(r, [0, 1, 2, 3, 4, 5], 6, ["runs"]) + doubling_cases(r, [9, 12])
    for c in big:
        c["want"] = ["runs", "kept"]
        c["variants"] = [{"ty": "count"}]
        c["runs"] = [dict(x, kept=True, same=k == 2) for x in c["runs"] for k in range(3)]
    return out + big


def value_cases(r, n):
    """C25: tokens, productions and sets as values"""
    out = []
    for k in range(n):
        g = gen.any_grammar(r) if k % 25 else gen.scale_grammar(r)
        names = ["nan"] * r.randint(0, 1) + r.sample(["a", "b", "A", "B", "ab", "aB", "Ab", "e", "z", "Z"], r.randint(1, 8))
        m = r.choice([1, 2, 4, 8, 16])
        toks = [r.choice(names) for _ in range(m)]
        lex = [r.choice([-1, 0, 1, 2, r.randint(0, 1000)]) for _ in range(m)]
        s = G(g)
        syms = s.symbols()
        given = {side: [{"s": x, "v": [y for y in syms if r.random() < r.choice([0, 0.3, 1])]} for x in syms if r.random() < 0.7]
                 for side in ("first", "follow")}
        out.append(case(g, ["values"], runs=[run(toks, lex)], given=given, variants=TYPES + [{"ty": "fold"}, {"ty": "odd"}], tag="values",
                        folded=[{"s": x, "c": x.lower()} for x in names]))
    return out
