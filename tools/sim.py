"""A small simulator of the library, used only to choose cases (is the grammar
left recursive, is it LL(1), how many steps does an input take).  It judges
nothing: verdicts come from the TLA+ specification."""
import sys
sys.setrecursionlimit(20000)


class TooLong(Exception):
    pass


class G:
    def __init__(self, g):
        self.g = g
        self.eps, self.start, self.prods = g["eps"], g["start"], g["prods"]
        self.nt = []
        for p in self.prods:
            if p["l"] not in self.nt:
                self.nt.append(p["l"])
        self.nts = set(self.nt)
        self.out = set(x for p in self.prods for x in p["r"])
        self.term = self.out - self.nts
        self.tok = sorted(self.term - {self.eps})
        self._analysed = False

    def symbols(self):
        return sorted(self.nts | self.out | {self.eps, self.start})

    def well_formed(self):
        return all(p["l"] != self.eps and p["r"] and (len(p["r"]) == 1 or self.eps not in p["r"]) for p in self.prods)

    def seq_first(self, r, k):
        s = set()
        for x in r[k:]:
            s |= self.first[x] - {self.eps}
            if self.eps not in self.first[x]:
                return s
        s.add(self.eps)
        return s

    def analyse(self):
        if self._analysed:
            return self
        self._analysed = True
        self.first = {x: set() for x in self.nts}
        for x in self.term:
            self.first[x] = {x}
        ch = True
        while ch:
            ch = False
            for p in self.prods:
                s = self.seq_first(p["r"], 0)
                if not s <= self.first[p["l"]]:
                    self.first[p["l"]] |= s
                    ch = True
        self.follow = {x: set() for x in self.nts}
        ch = True
        while ch:
            ch = False
            for p in self.prods:
                for i, x in enumerate(p["r"]):
                    if x in self.nts:
                        s = self.seq_first(p["r"], i + 1)
                        t = s - {self.eps}
                        if self.eps in s:
                            t |= self.follow[p["l"]]
                        if not t <= self.follow[x]:
                            self.follow[x] |= t
                            ch = True
        self.predict = []
        self.table = {}
        for k, p in enumerate(self.prods):
            s = self.seq_first(p["r"], 0)
            t = s - {self.eps}
            if self.eps in s:
                t |= self.follow[p["l"]]
            self.predict.append(t)
            for a in t:
                self.table.setdefault((p["l"], a), []).append(k)
        return self

    def supply(self, given):
        """candidates by FIRST and FOLLOW sets that need not be the grammar's"""
        self._analysed = True
        self.first = {x["s"]: set(x["v"]) for x in given["first"]}
        self.follow = {x["s"]: set(x["v"]) for x in given["follow"]}
        self.table = {}
        for k, p in enumerate(self.prods):
            s = self.seq_first(p["r"], 0)
            t = s - {self.eps}
            if self.eps in s:
                t |= self.follow[p["l"]]
            for a in t:
                self.table.setdefault((p["l"], a), []).append(k)
        return self

    def ll1(self):
        self.analyse()
        return all(len(v) <= 1 for v in self.table.values())

    def left_recursive(self):
        self.analyse()
        e = {x: set() for x in self.nts}
        for p in self.prods:
            for x in p["r"]:
                if x in self.nts:
                    e[p["l"]].add(x)
                if self.eps not in self.first[x]:
                    break
        ch = True
        while ch:
            ch = False
            for x in e:
                n = set().union(e[x], *[e[y] for y in e[x]])
                if n != e[x]:
                    e[x] = n
                    ch = True
        return any(x in e[x] for x in e)

    def productive(self):
        s = set(self.term)
        ch = True
        while ch:
            ch = False
            for p in self.prods:
                if p["l"] not in s and all(x in s for x in p["r"]):
                    s.add(p["l"])
                    ch = True
        return s

    def marker(self):
        if self.start not in self.nts or self.start in self.out:
            return None
        z = None
        for p in self.prods:
            if p["l"] == self.start:
                if z not in (None, p["r"][-1]):
                    return None
                z = p["r"][-1]
        if z in self.nts or z == self.eps:
            return None
        for p in self.prods:
            r = p["r"][:-1] if p["l"] == self.start else p["r"]
            if z in r:
                return None
        return z

    # ------------------------------------------------------ parsing (steps)
    def parse(self, toks, limit=3000):
        """(accepted, end, steps); raises TooLong"""
        self.analyse()
        self.steps = 0
        self.again = 0  # choices made in another way
        self.limit = limit
        r = self._sym(toks, self.start, 0, None)
        return (r is not None, r[0] if r else 0, self.steps)

    def _cands(self, toks, a, i):
        return self.table.get((a, toks[i]), []) if i < len(toks) else []

    def _sym(self, toks, x, i, cs):
        """first match: (end, remaining candidates) or None"""
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        if x == self.eps:
            return (i, [])
        if x not in self.nts and cs is None:
            if x == self.start and x not in self.term:
                return None
            return (i + 1, []) if i < len(toks) and toks[i] == x else None
        if cs is None:
            cs = self._cands(toks, x, i)
        for n, k in enumerate(cs):
            e = self._prod(toks, self.prods[k]["r"], i)
            if e is not None:
                return (e, cs[n + 1:])
        return None

    def _prod(self, toks, r, i):
        st = []
        pos = i
        while len(st) < len(r):
            self.steps += 1
            if self.steps > self.limit:
                raise TooLong()
            m = self._sym(toks, r[len(st)], pos, None)
            if m is not None:
                st.append((pos, m[0], m[1]))
                pos = m[0]
                continue
            while st:
                f, _, rest = st.pop()
                if rest:
                    m = self._sym(toks, r[len(st)], f, rest)
                    if m is not None:
                        self.again += 1
                        st.append((f, m[0], m[1]))
                        pos = m[0]
                        break
            else:
                return None
        return pos


class Machine:
    """How many steps the parser machine takes when the solver answers as
    recorded; only used to leave out runs that would take too long to trace."""
    def __init__(self, s, toks, answers, limit):
        self.s, self.toks, self.answers, self.limit = s.analyse(), toks, answers, limit
        self.asked = self.steps = 0

    def count(self):
        try:
            self.sym(self.s.start, 0, None, True)
        except (TooLong, RecursionError):
            return None
        return self.steps

    def step(self, n=1):
        self.steps += n
        if self.steps > self.limit:
            raise TooLong()

    def sym(self, x, i, cs, sp):
        s = self.s
        if cs is None:
            cs = s._cands(self.toks, x, i)
        for unfixed in ((True, False) if sp else (False,)):
            single = not unfixed and sp and len(cs) == 1
            for n, k in enumerate(cs):
                self.step(4)
                e = self.prod(s.prods[k]["r"], i, single)
                if e is not None:
                    return (e[0], cs[n + 1:], e[1])
            self.step()
        if sp:
            self.asked += 1
            a = self.answers[self.asked - 1] if self.asked <= len(self.answers) else {"ans": "no"}
            if a["ans"] == "fix":
                return (a["to"], [], True)
        return None

    def prod(self, r, i, sp):
        s, toks = self.s, self.toks
        done, pos = [], i
        while len(done) < len(r):
            x = r[len(done)]
            self.step(2)
            if x == s.eps:
                m = (pos, None, False)
            elif x not in s.nts:
                m = (pos + 1, None, False) if pos < len(toks) and toks[pos] == x else None
            else:
                m = self.sym(x, pos, None, sp)
            if m is None:
                while done:
                    f, (_, rest, fixed) = done.pop()
                    self.step()
                    x = r[len(done)]
                    if x in s.nts and not fixed:
                        m = self.sym(x, f, rest, False)
                        self.step(2)
                        if m is not None:
                            pos = f
                            break
                if m is None:
                    return None
            done.append((pos, m))
            pos = m[0]
        return (pos, any(m[2] for _, m in done))
