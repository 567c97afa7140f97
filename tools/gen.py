"""Random cases for the harness, beyond the families drawn by TLC: larger
grammars, realistic grammars, long inputs, mutated sentences.  All choices come
from one seeded generator."""
import random
from sim import G, TooLong

EPS = "e"


def P(l, *r):
    return {"l": l, "r": list(r)}


def gram(prods, start="S", eps=EPS):
    return {"eps": eps, "start": start, "prods": prods}


def txt(start, *rules, eps="e"):
    """'A: a B | e' lines"""
    ps = []
    for r in rules:
        l, o = r.split(":", 1)
        for alt in o.split(" | "):
            ps.append(P(l.strip(), *alt.split()))
    return gram(ps, start, eps)


# ------------------------------------------------------------- realistic ones
REAL_LL1 = [
    txt("S", "S: J z", "J: { M } | [ L ] | n | s", "M: Q N | e", "N: , Q N | e", "Q: s : J", "L: J K | e", "K: , J K | e"),
    txt("S", "S: E z", "E: T R", "R: + T R | e", "T: F Y", "Y: * F Y | e", "F: ( E ) | i"),
    txt("S", "S: B z", "B: C B | e", "C: if ( i ) C D | w ( i ) C | { B } | i = X ;", "D: el C fi | fi", "X: n | i"),
    txt("P", "P: D M z", "D: v i D | e", "M: f ( A ) { M } | e", "A: i O | e", "O: , i O | e"),
    txt("S", "S: L z", "L: ( U ) | a", "U: L U | e"),
    txt("S", "S: A B C z", "A: a A | e", "B: b B | e", "C: c C | e"),
    txt("S", "S: A A z", "A: b B", "B: e | c"),
    txt("S", "S: u B t z | v C t z | X y z", "X: A", "A: B C | t", "B: e | b", "C: e | c"),
    txt("S", "S: W z", "W: x W y | e"),
    txt("S", "S: Q1 Q2 Q3 Q4 z", "Q1: a | e", "Q2: b | e", "Q3: c | e", "Q4: d | e"),
    txt("S", "S: X Y X z", "X: a X | b", "Y: c Y | e"),
]
REAL_BACK = [
    txt("S", "S: A B z", "A: a b | a", "B: b c"),
    txt("S", "S: A A z", "A: a b | a | e"),
    txt("S", "S: L z | L", "L: i , L | i"),
    txt("S", "S: A B C z", "A: a A | a | e", "B: b B | b", "C: c | a"),
    txt("S", "S: X Y z | X z", "X: a | a a | a a a", "Y: a | b"),
    txt("S", "S: if c S | if c S el S | o", ),
    txt("S", "S: D E z", "D: d D | d | e", "E: d e1 | F", "F: d d f"),
    txt("S", "S: N V N | N V", "N: d n | n | N2", "N2: d a n", "V: v | v p"),
    txt("S", "S: A B | A C | A", "A: a | a A", "B: a b", "C: a c"),
    txt("S", "S: T + S | T - S | T", "T: U * T | U", "U: i | ( S )"),
]


# ------------------------------------------------------------------- grammars
def rand_grammar(r, nn, nt, alts, hi, peps=0.2, pnt=0.5, start="S", marked=False):
    nts = ["S"] + ["A%d" % k for k in range(1, nn)]
    toks = ["t%d" % k for k in range(nt)]
    ps = []
    for k, a in enumerate(nts):
        for _ in range(r.randint(1, alts)):
            if r.random() < peps:
                out = [EPS]
            else:
                n = 1 if r.random() < 0.25 else r.randint(1, hi)
                pool = nts[1:] if marked and len(nts) > 1 else nts
                out = [r.choice(pool) if pool and r.random() < pnt else r.choice(toks) for _ in range(n)]
                if r.random() < 0.1 and len(out) > 1:
                    out[1] = out[0]  # adjacent repetition
            if marked and k == 0:
                out = (out if out != [EPS] else []) + ["z"]
            ps.append(P(a, *out))
    if r.random() < 0.15:
        ps.append(dict(r.choice(ps)))  # a repeated production
    if r.random() < 0.5:
        r.shuffle(ps)  # interleaved declarations
    return gram(ps, start)


def layered(r, nn, nt, alts, hi, peps, marked):
    """non-terminals mostly refer to later ones: rarely left recursive"""
    nts = ["S"] + ["A%d" % k for k in range(1, nn)]
    toks = ["t%d" % k for k in range(nt)]
    ps = []
    for k, a in enumerate(nts):
        for _ in range(r.randint(1, alts)):
            if k and r.random() < peps:
                out = [EPS]
            else:
                out = []
                for j in range(r.randint(1, hi)):
                    back = j > 0 and out[0] in toks
                    pool = nts[1:] if back else nts[k + 1:]
                    out.append(r.choice(pool) if pool and r.random() < 0.5 else r.choice(toks))
                if r.random() < 0.15 and len(out) > 1:
                    out[1] = out[0]
            if marked and k == 0:
                out.append("z")
            ps.append(P(a, *out))
    return gram(ps)


def prefix_heavy(r, nn, nt):
    """alternatives that share prefixes: much backtracking"""
    nts = ["S"] + ["A%d" % k for k in range(1, nn)]
    toks = ["t%d" % k for k in range(nt)]
    ps = []
    for k, a in enumerate(nts):
        stem = [r.choice(nts[k + 1:] + toks) if nts[k + 1:] else r.choice(toks) for _ in range(r.randint(1, 3))]
        for _ in range(r.randint(1, 3)):
            cut = r.randint(0, len(stem))
            tail = [r.choice(nts[k + 1:] + toks) if r.random() < 0.7 else r.choice(toks) for _ in range(r.randint(0, 2))]
            out = stem[:cut] + tail
            ps.append(P(a, *(out or [EPS])))
        if r.random() < 0.3:
            ps.append(P(a, r.choice(toks), a))
    if r.random() < 0.4:
        r.shuffle(ps)
    return gram(ps)


def chain(r, n):
    """long dependency chains, declared in random order"""
    ps = []
    kind = r.randint(0, 4)
    for k in range(n):
        nxt = "A%d" % (k + 1) if k + 1 < n else None
        a = "A%d" % k
        if nxt is None:
            ps += [P(a, "x"), P(a, EPS)] if kind != 1 else [P(a, "x")]
        elif kind == 0:
            ps.append(P(a, nxt))
        elif kind == 1:
            ps.append(P(a, nxt, "y%d" % (k % 5)))
        elif kind == 2:
            ps += [P(a, nxt, nxt), P(a, "t%d" % (k % 4), a)]
        elif kind == 3:
            ps += [P(a, nxt), P(a, "t%d" % (k % 7))]
        else:
            ps += [P(a, "u%d" % (k % 3), nxt), P(a, nxt, "A%d" % r.randint(0, n - 1))]
    ps.append(P("S", "A0", "z"))
    r.shuffle(ps)
    return gram(ps)


def nullable_run(r, n):
    ps = []
    nts = ["A%d" % k for k in range(n)]
    out = [r.choice(nts) for _ in range(n)]
    ps.append(P("S", *(out + (["z"] if r.random() < 0.5 else []))))
    for k, a in enumerate(nts):
        ps.append(P(a, "t%d" % k, *(["S"] if r.random() < 0.2 else [])))
        if r.random() < 0.8:
            ps.append(P(a, EPS))
        if r.random() < 0.3:
            ps.append(P(a, *[r.choice(nts) for _ in range(r.randint(1, 3))]))
    r.shuffle(ps)
    return gram(ps)


def recursive_mix(r):
    """left recursion, cycles, unproductive and unreachable symbols (analysis only)"""
    ps = [P("S", "L", "z"), P("L", "L", "a"), P("L", EPS), P("C", "D"), P("D", "C"), P("D", "d"),
          P("U", "U", "b"), P("X", "U", "c"), P("H", "N", "H", "h"), P("N", EPS), P("N", "n"), P("V", "V")]
    r.shuffle(ps)
    ps = ps[:r.randint(4, len(ps))]
    syms = sorted(set(p["l"] for p in ps)) + ["a", "q"]
    for _ in range(r.randint(0, 4)):
        ps.append(P(r.choice(syms[:-2]), *[r.choice(syms) for _ in range(r.randint(1, 4))]))
    return gram(ps, r.choice(["S", "L", "C"]))


def wide(r):
    n = r.randint(8, 24)
    ps = [P("S", "L", "z")]
    for k in range(n):
        ps.append(P("L", "t%d" % (k % 9), *(["B"] * (k % 3))))
    ps.append(P("L", *[r.choice(["B", "t0", "t1"]) for _ in range(r.randint(8, 16))]))
    ps += [P("B", EPS), P("B", "b", "B"), P("B", "t1")]
    return gram(ps)


# ------------------------------------------------------------ larger ones
def scale_grammar(r, kind=None):
    """one dimension is large: outputs, candidates, symbols, chains, nesting"""
    k = kind if kind is not None else r.randint(0, 6)
    z = ["z"] if r.random() < 0.7 else []
    if k == 0:  # a long output, some of it may be empty
        n = r.randint(9, 40)
        out = []
        for j in range(n):
            d = r.random()
            out.append("t%d" % (j % r.choice([2, 3, 7])) if d < 0.5 else r.choice(["A", "B", "C", "D"]))
        return gram([P("S", *(out + z)), P("A", "a"), P("A", EPS), P("B", "t0"), P("B", "b", "B"), P("C", "t1", "t2"),
                     P("C", "t1"), P("D", "t0", "A"), P("D", "t0"), P("D", EPS)])
    if k == 1:  # many candidates with common beginnings
        n = r.randint(9, 40)
        ps = [P("S", "A", *(z or ["B"]))]
        for j in range(n):
            ps.append(P("A", *([r.choice(["x", "B", "x"])] + ["y"] * r.randint(0, 3) + [r.choice(["x", "y", "B"]) for _ in range(r.randint(0, 3))])))
        ps += [P("B", "x"), P("B", "x", "y")]
        if r.random() < 0.3:
            ps.append(P("A", EPS))
        return gram(ps)
    if k == 2:  # many non-terminals, one after the other
        n = r.randint(9, 60)
        ps = []
        for j in range(n):
            a, b = "A%d" % j, "A%d" % (j + 1)
            last = j == n - 1
            ps.append(P(a, *(["x"] if last else r.choice([[b], [b, "y"], ["x", b], [b, "N"]]))))
            if r.random() < 0.2:
                ps.append(P(a, "w%d" % (j % 4)))
        ps = [P("S", "A0", *z), P("N", EPS), P("N", "n")] + ps
        if r.random() < 0.5:
            r.shuffle(ps)
        return gram(ps)
    if k == 3:  # many terminals
        n = r.randint(20, 90)
        ps = [P("S", "L", *z), P("L", "K", "L"), P("L", EPS)]
        for j in range(n):
            ps.append(P("K", "k%d" % j, *(["M"] if j % 9 == 0 else [])))
        ps += [P("M", "k1"), P("M", "q")]
        return gram(ps)
    if k == 4:  # many symbols that can be empty
        n = r.randint(9, 30)
        nts = ["A%d" % j for j in range(n)]
        ps = [P("S", *(nts + z))]
        for j, a in enumerate(nts):
            ps.append(P(a, "t%d" % (j % r.choice([n, n, 3]))))
            if r.random() < 0.9:
                ps.append(P(a, EPS))
        return gram(ps)
    if k == 5:  # nested brackets of several kinds
        n = r.randint(2, 12)
        ps = [P("S", "E", *z), P("E", "i"), P("E", EPS)]
        for j in range(n):
            ps.append(P("E", "o%d" % j, "E", "c%d" % j, *(["E"] if r.random() < 0.3 else [])))
        return gram(ps)
    # one production after the other, each with choices that fail late
    n = r.randint(4, 8)
    ps = [P("S", *(["A%d" % j for j in range(n)] + z))]
    for j in range(n):
        ps += [P("A%d" % j, "x", "y"), P("A%d" % j, "x")] if r.random() < 0.5 else [P("A%d" % j, "x"), P("A%d" % j, "x", "y")]
        if r.random() < 0.3:
            ps.append(P("A%d" % j, "y"))
    return gram(ps)


def huge_grammar(r, k, n=None):
    """one dimension beyond 256"""
    n = n or (r.randint(600, 700) if k == 6 else r.randint(257, 300))
    z = ["z"]
    if k == 0:  # a long output
        out = [r.choice(["a", "b", "N", "M"]) if j % 7 else "t%d" % (j // 7) for j in range(n)]
        return gram([P("S", *(out + z)), P("N", "n"), P("N", EPS), P("M", "m", "a"), P("M", "m")])
    if k == 1:  # many candidates at one token
        ps = [P("S", "A", *z)]
        for j in range(n):
            ps.append(P("A", "x", *["y"] * (j % 3), "k%d" % (j % 40), "w%d" % (j // 40)))
        return gram(ps)
    if k in (2, 6):  # a long chain of non-terminals
        ps = []
        for j in range(n):
            ps.append(P("A%d" % j, *(["x"] if j == n - 1 else r.choice([["A%d" % (j + 1)], ["A%d" % (j + 1), "N"]]))))
        r.shuffle(ps)
        return gram([P("S", "A0", *z), P("N", "n"), P("N", EPS)] + ps)
    if k == 3:  # many terminals
        return gram([P("S", "L", *z), P("L", "K", "L"), P("L", EPS)] + [P("K", "k%d" % j) for j in range(n)])
    if k == 4:  # many non-terminals next to each other
        ps = [P("S", *(["A%d" % j for j in range(n)] + z))]
        for j in range(n):
            ps += [P("A%d" % j, "t%d" % (j % 5))]
            if j % 3 == 0:
                ps.append(P("A%d" % j, EPS))
        return gram(ps)
    # a deep chain of empty symbols: the last one makes all of them nullable
    ps = [P("S", "A0", *z)]
    for j in range(n):
        ps.append(P("A%d" % j, *(["A%d" % (j + 1)] if j < n - 1 else [EPS])))
        if j % 50 == 0:
            ps.append(P("A%d" % j, "a%d" % j, "A%d" % j))
    r.shuffle(ps)
    return gram(ps)


def shared_grammar(r, n):
    """every symbol is used twice or more by the one before it"""
    ps = [P("S", "A0", "z")]
    eps = r.random() < 0.5
    for j in range(n):
        nxt = ["A%d" % (j + 1) if j + 1 < n else "x", "A%d" % min(j + 2, n - 1) if j + 1 < n and r.random() < 0.5 else "B"]
        ps.append(P("A%d" % j, *(nxt if r.random() < 0.7 else nxt[::-1])))
        ps.append(P("A%d" % j, *([nxt[0], "t%d" % (j % 5)] if r.random() < 0.7 else [nxt[0], nxt[0]])))
        if eps and r.random() < 0.7:
            ps.append(P("A%d" % j, EPS))
    ps += [P("B", "b"), P("B", EPS)]
    if r.random() < 0.7:
        r.shuffle(ps)
    return gram(ps)


def tangle(r, n):
    """every symbol leads to every other one"""
    nts = ["A%d" % j for j in range(n)]
    ps = [P("S", "A0", "z")]
    for j, a in enumerate(nts):
        ps.append(P(a, "t%d" % (j % 30)))
        for _ in range(r.randint(1, 4)):
            ps.append(P(a, *[r.choice(nts) for _ in range(r.randint(1, 3))]))
        if r.random() < 0.3:
            ps.append(P(a, EPS))
    r.shuffle(ps)
    return gram(ps)


def doubling(r, depth, leaves=None, tail=False):
    """2^depth leaves, and little nesting; after them something that is tried
    in more than one way"""
    ps = [P("S", "A0", *(["X", "b", "z"] if tail else ["z"]))]
    if tail:
        ps += r.choice([[P("X", "a", "b"), P("X", "a")], [P("X", "Y", "b"), P("X", "Y"), P("Y", "a", "a"), P("Y", "a")]])
    for j in range(depth):
        ps.append(P("A%d" % j, "A%d" % (j + 1), "A%d" % (j + 1)))
    for x in leaves or ["t", "u"]:
        ps.append(P("A%d" % depth, x))
    return gram(ps)


def nest_grammar(r):
    """choices nested in each other: alternatives of a symbol that begin alike
    and go through the symbol itself; (grammar, opening, middle, closings)"""
    pre = ["a"] * r.choice([1, 1, 2])
    two = r.random() < 0.3  # through a second symbol
    inner = "B" if two else "A"
    outs = []
    for _ in range(r.randint(1, 3)):
        outs.append(pre + [inner] + r.choice([[], [], ["x"], ["y"], ["C"], ["x", "C"]]))
    if r.random() < 0.3:
        outs.append(pre + [inner, inner])
    outs.append(r.choice([["b"], ["b", "C"], ["b"]]))
    if r.random() < 0.3:
        outs.append(["b", "x"])
    ps = [P("A", *o) for o in outs]
    if r.random() < 0.5:
        r.shuffle(ps)
    if two:
        ps += r.choice([[P("B", "A")], [P("B", "A"), P("B", "A", "x")], [P("B", "A", "x"), P("B", "A")]])
    if any("C" in p["r"] for p in ps):
        ps += [P("C", "x"), P("C", "x", "x")] + ([P("C", EPS)] if r.random() < 0.5 else [])
    top = r.choice([["A", "z"], ["A", "z"], ["A", "y", "z"], ["A"]])
    ps = [P("S", *top)] + ps
    if r.random() < 0.2:
        ps.insert(1, P("S", *(top[:-1] + ["w"])))
    return gram(ps), pre, ["b"], ["x", "x", "y"]


def rematch_grammar(r):
    """symbols with a single candidate, around choices that have to be made in
    another way when what follows fails"""
    deep = r.randint(0, 2)
    names = ["M%d" % k for k in range(deep + 1)]
    ps = [P("S", names[0], *r.choice([["z"], ["B", "z"], []]))]
    for a, b in zip(names, names[1:]):
        ps.append(P(a, *r.choice([[b], [b, "B"], ["v", b]])))
    ps.append(P(names[-1], *r.choice([["A", "C"], ["A", "C", "B"], ["A", "A", "C"], ["v", "A", "C"], ["A", "C", "A", "C"]])))
    alts = [["x", "y"], ["x"]] + ([["x", "y", "w"]] if r.random() < 0.4 else [])
    if r.random() < 0.3:
        r.shuffle(alts)
    ps += [P("A", *o) for o in alts]
    ps += r.choice([[P("C", "y", "w")], [P("C", "y", "w"), P("C", "y")], [P("C", "D"), P("D", "y", "w")], [P("C", "y", "D"), P("D", "w")]])
    ps += [P("B", "b")] + ([P("B", EPS)] if r.random() < 0.5 else [])
    return gram([p for p in ps if p["l"] != "B" or any("B" in q["r"] for q in ps)])


def nest_input(r, n, pre, mid, post):
    w = pre * n + mid
    k = r.choice([0, 0, 1, n // 2, n, n + 1])
    x = r.choice(post)
    w += [x if r.random() < 0.9 else r.choice(post) for _ in range(k)]
    return w + r.choice([["z"], ["z"], ["?"], ["y", "z"], ["w"], []])


def flat_grammar(r, n):
    """one production with very many symbols"""
    k = r.randrange(n)
    out = ["N" if j % 997 == 0 or j == k else "t%d" % (j % 3) for j in range(n)]
    return gram([P("S", *(out + ["z"])), P("N", "n"), P("N", "n", "m"), P("N", "k")])


def any_grammar(r):
    d = r.random()
    if d < 0.06:
        g = scale_grammar(r)
        return shuffled(r, g) if r.random() < 0.5 else g
    d = r.random()
    if d < 0.35:
        return rand_grammar(r, r.randint(1, 7), r.randint(1, 5), r.randint(1, 4), r.randint(1, 5),
                            r.choice([0.05, 0.2, 0.4]), r.choice([0.3, 0.5, 0.8]))
    if d < 0.45:
        return layered(r, r.randint(2, 8), r.randint(1, 5), 3, r.randint(1, 5), 0.3, r.random() < 0.5)
    if d < 0.60:
        return nullable_run(r, r.randint(2, 8))
    if d < 0.72:
        return recursive_mix(r)
    if d < 0.82:
        return chain(r, r.randint(3, 24) if r.random() < 0.8 else r.randint(25, 60))
    if d < 0.88:
        return wide(r)
    g = r.choice(REAL_LL1 + REAL_BACK)
    return rename(r, g) if r.random() < 0.5 else shuffled(r, g)


def shuffled(r, g):
    ps = list(g["prods"])
    r.shuffle(ps)
    return dict(g, prods=ps)


def rename(r, g):
    """other symbol names, another empty word and initial symbol name"""
    syms = sorted(set([g["eps"], g["start"]] + [x for p in g["prods"] for x in [p["l"]] + p["r"]]))
    names = ["k%d" % k for k in range(len(syms))]
    r.shuffle(names)
    m = dict(zip(syms, names))
    if r.random() < 0.5:
        m[g["eps"]] = ""
    return {"eps": m[g["eps"]], "start": m[g["start"]],
            "prods": [{"l": m[p["l"]], "r": [m[x] for x in p["r"]]} for p in g["prods"]]}


def parsable(r, want_ll1=None, marked=None, tries=4000):
    """a grammar without left recursion, LL(1) / with an end marker on request"""
    for _ in range(tries):
        d = r.random()
        if want_ll1:
            if r.random() < 0.1:
                g = scale_grammar(r, r.choice([0, 3, 4, 5]))
            elif d < 0.4:
                g = r.choice(REAL_LL1)
                g = rename(r, g) if r.random() < 0.3 else g
            elif d < 0.8:
                g = layered(r, r.randint(2, 6), r.randint(2, 6), 3, 3, 0.35, True)
            else:
                g = rand_grammar(r, r.randint(2, 5), r.randint(2, 6), 2, 3, 0.3, 0.5, marked=True)
        else:
            if r.random() < 0.08:
                g = scale_grammar(r)
            elif d < 0.25:
                g = r.choice(REAL_BACK + REAL_LL1)
                g = rename(r, g) if r.random() < 0.2 else g
            elif d < 0.55:
                g = prefix_heavy(r, r.randint(2, 4), r.randint(1, 3))
            elif d < 0.8:
                g = layered(r, r.randint(2, 6), r.randint(1, 4), 3, 4, 0.25, r.random() < 0.5)
            else:
                g = rand_grammar(r, r.randint(1, 5), r.randint(1, 3), 3, 3, 0.2, 0.5, marked=r.random() < 0.5)
        s = G(g).analyse()
        if not s.well_formed() or s.left_recursive():
            continue
        if want_ll1 and not (s.ll1() and (not marked or s.marker())):
            continue
        if marked and not s.marker():
            continue
        if s.start in s.nts and len(s.prods) and s.tok:
            if r.random() < 0.8 and s.start not in s.productive():
                continue
            return g
    raise RuntimeError("no grammar found")


# --------------------------------------------------------------------- inputs
def sentence(r, s, budget=40):
    """a random sentence of s (G), or None"""
    prod = s.productive()
    cheap = {}
    # shortest expansions first, to be able to finish
    depth = {x: 0 for x in s.term}
    ch = True
    while ch:
        ch = False
        for k, p in enumerate(s.prods):
            if all(x in depth for x in p["r"]):
                d = 1 + max([depth[x] for x in p["r"]])
                if p["l"] not in depth or d < depth[p["l"]]:
                    depth[p["l"]] = d
                    cheap[p["l"]] = k
                    ch = True
    if s.start not in depth:
        return None
    out = []
    todo = [s.start]
    used = 0
    while todo:
        x = todo.pop()
        if x == s.eps:
            continue
        if x not in s.nts:
            out.append(x)
            continue
        used += 1
        ks = [k for k, p in enumerate(s.prods) if p["l"] == x and all(y in prod for y in p["r"])]
        k = r.choice(ks) if used < budget else cheap[x]
        todo.extend(reversed(s.prods[k]["r"]))
    return out


def mutate(r, s, w):
    w = list(w)
    pool = s.tok + (["?"] if r.random() < 0.15 else [])
    for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
        d = r.random()
        i = r.randint(0, len(w)) if w else 0
        if d < 0.3 and w:
            del w[min(i, len(w) - 1)]
        elif d < 0.55:
            w.insert(i, r.choice(pool))
        elif d < 0.75 and w:
            w[min(i, len(w) - 1)] = r.choice(pool)
        elif d < 0.9 and w:
            w = w[:i]
        elif len(w) > 1:
            j = r.randrange(len(w) - 1)
            w[j], w[j + 1] = w[j + 1], w[j]
    return w


def an_input(r, s, longest=14, budget=25):
    d = r.random()
    w = None
    if d < 0.8:
        w = sentence(r, s, r.choice([3, 8, budget]))
        if w is not None and len(w) <= longest and d > 0.25:
            w = mutate(r, s, w)
    if w is None or len(w) > longest:
        w = [r.choice(s.tok) for _ in range(r.randint(1, 6))]
    if r.random() < 0.04:
        w.insert(r.randint(0, len(w)), r.choice([s.eps, s.start, "?", s.nt[-1]]))
    return w


def lexemes(r, n):
    """distinct lexemes, some tokens without one"""
    v = r.sample(range(0, 3 * n + 5), n)
    return [-1 if r.random() < 0.1 else x for x in v]


def inputs(r, s, n, limit=1500, longest=14, budget=25):
    out = []
    seen = set()
    for _ in range(n * 6):
        w = an_input(r, s, longest, budget)
        if not w or tuple(w) in seen:
            continue
        seen.add(tuple(w))
        try:
            s.parse(w, limit)
        except (TooLong, RecursionError):
            continue
        out.append(w)
        if len(out) == n:
            break
    return out


WIDTHS = [20, 34, 34, 66, 66, 130, 130, 258, 300]


def widely(r, kind, n):
    """a grammar with n of something in one place, and inputs that need the
    first, the last or any one of them"""
    last = lambda: r.choice([n - 1, n - 1, n - 2, n // 2, r.randrange(n), 0, n])
    z = ["z"] if r.random() < 0.8 else []
    if kind == "cands":  # candidates of one symbol at one token
        end = r.choice([[], ["E"]])
        pre = r.choice([[], ["V"], ["V", "V"]])
        ps = [P("S", *(pre + ["A"] + end + z))] + [P("A", "x", "t%d" % j, *(["q"] if j % 50 == 49 else [])) for j in range(n)]
        ps += [P("E", "e"), P("E", EPS)] if end else []
        ps += [P("V", "v")] if pre else []
        if r.random() < 0.3:
            ps.append(P("A", "x", "t%d" % (n - 1), "y"))
        if r.random() < 0.3:
            ps.insert(1, P("A", "x"))
        ws = []
        for _ in range(4):
            w = ["x", "t%d" % min(last(), n - 1)]
            w = ["v"] * len(pre) + w + r.choice([[], [], ["e"], ["y"], ["q"]]) + r.choice([z, z, ["z"], ["x"], []])
            ws.append(w if r.random() < 0.8 else w[:-1])
        ws.append(["v"] * len(pre) + ["x", "?"])
        return gram(ps), ws
    if kind in ("nulls", "nulls2"):  # symbols in a row that can be empty
        many = kind == "nulls"
        nts = ["N%d" % (j if many else j % 3) for j in range(n)]
        front = r.choice([[], ["a"], ["A"]])
        ps = [P("S", *(front + nts + z))]
        for j in range(n if many else 3):
            ps += [P("N%d" % j, "t%d" % j), P("N%d" % j, EPS)]
            if r.random() < 0.5:
                ps[-1], ps[-2] = ps[-2], ps[-1]
        ps += [P("A", "a"), P("A", EPS)] if front == ["A"] else []
        ws = []
        for _ in range(4):
            w = ["a"] * len(front)
            at = sorted(set(min(last(), n - 1) for _ in range(r.randint(0, 3))))
            w = w + ["t%d" % (j if many else j % 3) for j in at] + r.choice([z, z, ["z"], ["t0"]])
            ws.append(w)
        return gram(ps), ws
    if kind == "row":  # symbols of one production
        out = []
        at = {min(last(), n - 1) for _ in range(3)}
        for j in range(n):
            out.append("N" if j in at else "a" if j % 10 else "t%d" % (j // 10 % 30))
        ps = [P("S", *(out + z)), P("N", "n", "m"), P("N", "n"), P("N", "k")]
        if r.random() < 0.3:
            ps.insert(1, P("S", *(out[:-1] + ["u"])))
        if r.random() < 0.3:
            ps = ps[:2] + [P("N", "n", "m")]
        ws = []
        for _ in range(4):
            w = []
            for x in out + z:
                w += r.choice([["n", "m"], ["n"], ["k"]]) if x == "N" else [x]
            d = r.random()
            if d < 0.6:
                i = min(len(w) - 1, r.choice([0, 1, len(w) - 1, len(w) - 2, len(w) // 2, r.randrange(len(w))]))
                w = r.choice([w[:i], w[:i] + ["?"] + w[i + 1:], w[:i] + w[i + 1:], w[:i] + [r.choice("ank")] + w[i:]])
            ws.append(w)
        return gram(ps), [w for w in ws if w]
    if kind == "terms":  # terminals of one FIRST set
        ps = [P("S", "L", *z), P("L", "K", "L"), P("L", EPS)] + [P("K", "k%d" % j) for j in range(n)]
        if r.random() < 0.5:
            ps = [P("S", "L", *z), P("L", "K", "M"), P("M", "L"), P("L", EPS)] + [P("K", "J%d" % (j // 8)) for j in range(0, n, 8)] + \
                [P("J%d" % (j // 8), "k%d" % j) for j in range(n)]
        return gram(ps), [["k%d" % min(last(), n - 1) for _ in range(r.randint(1, 5))] + r.choice([z, ["z"], ["?"]]) for _ in range(4)]
    # alternatives on the level of the initial symbol that end differently
    m = min(n, 66)
    ps = [P("S", "A", "B%d" % j, "z%d" % j) for j in range(m)] + [P("B%d" % j, "b") for j in range(m)] + [P("A", "a", "b"), P("A", "a")]
    return gram(ps), [["a"] + ["b"] * r.randint(0, 3) + ["z%d" % r.choice([m - 1, m - 2, 0, r.randrange(m)])] * r.randint(0, 1) for _ in range(3)]


WIDE_KINDS = ["cands", "nulls", "nulls2", "row", "terms", "alts"]
