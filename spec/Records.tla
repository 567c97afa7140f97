------------------------------- MODULE Records -------------------------------
(***************************************************************************)
(* Validation of observations recorded from the implementation: one record   *)
(* per case, with the grammar, what was asked, and what the library answered. *)
(* Judge(P, r) says whether record r is allowed by property P.               *)
(* Environment: REC file of records (ndjson), PROP property.                 *)
(*                                                                          *)
(* The state machine only walks through the records, in blocks, so that      *)
(* TLC's workers share them.                                                 *)
(***************************************************************************)
EXTENDS Observed, Work, Values, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.REC)
Prop == IOEnv.PROP

VARIABLES blk, i

Blocks == 64
RInit == blk \in 1..Blocks /\ i = 0
RNext == /\ i = 0
         /\ i' \in { k \in DOMAIN Recs : k % Blocks = blk - 1 }
         /\ UNCHANGED blk

\* ------------------------------------------------------------ C01, C02
\* obs: list of distinct observations of the grammar (over repeated
\* constructions, symbol types, and declaration orders)
J01(r) ==
    /\ r.stage = "build" => r.fatal = "no"
    /\ \A o \in RangeOf(r.obs) : (o.build = "ok") = WellFormed(r.g)

\* a list of distinct members that is the set S
Lists(l, S) == RangeOf(l) = S /\ Len(l) = Cardinality(S)

J02(r) ==
    \A o \in RangeOf(r.obs) : o.build = "ok" =>
        /\ o.eps = r.g.eps
        /\ o.start = r.g.start
        /\ Lists(o.nts, NT(r.g))
        /\ Lists(o.ts, Term(r.g))
        /\ \A q \in RangeOf(o.per) :
             /\ q.nt = (q.s \in NT(r.g))
             /\ q.t = (q.s \in Term(r.g))
             /\ q.some = (q.s \in NT(r.g))
             /\ q.ps = [k \in DOMAIN ProdsOf(r.g, q.s) |-> [l |-> q.s, r |-> ProdsOf(r.g, q.s)[k]]]

\* ------------------------------------------------------------ C03, C04
Analysed(o) == o.build = "ok" /\ o.ff # "no"
Stuck(r) == r.fatal # "no" /\ r.stage = "analysis"

J03(r) ==
    /\ ~Stuck(r)
    /\ LET F == TLCEval(First(r.g)) IN
       \A o \in RangeOf(r.obs) : Analysed(o) =>
         /\ o.ff = "ok"
         /\ \A q \in RangeOf(o.sets) :
              /\ q.first.some = (q.s \in DOMAIN F)
              /\ q.first.some => Lists(q.first.v, F[q.s])

J04(r) ==
    /\ ~Stuck(r)
    /\ LET W == TLCEval(Follow(r.g, First(r.g))) IN
       \A o \in RangeOf(r.obs) : Analysed(o) =>
         /\ o.ff = "ok"
         /\ \A q \in RangeOf(o.sets) :
              /\ q.follow.some = (q.s \in DOMAIN W)
              /\ q.follow.some => Lists(q.follow.v, W[q.s])

\* ---------------------------------------------------------------- C05
\* dup: the variants also repeat productions, and so only sets are comparable
Cells(o) == { << o.table[k].s, o.table[k].a, RangeOf(o.table[k].ps) >> : k \in DOMAIN o.table }
Outcome(x) == << x.k, x.tree >>
J05(r) ==
    /\ r.fatal # "no" => r.stage \notin {"build", "analysis"}
    /\ \A o \in RangeOf(r.obs) : o.build = "ok" => o.ff # "panic" /\ o.tb # "panic"
    /\ \A o, p \in RangeOf(r.obs) :
         IF r.dup THEN o.sets = p.sets /\ Cells(o) = Cells(p) ELSE o = p
    /\ \A a, b \in RangeOf(r.res) :
         /\ Len(a) = Len(b)
         /\ \A k \in DOMAIN a : IF r.dup THEN Outcome(a[k]) = Outcome(b[k]) ELSE a[k] = b[k]

\* ---------------------------------------------------------------- C06
\* judged by the FIRST and FOLLOW sets supplied: the given ones, or else the
\* ones observed; sets that are not even sets of terminals are not judged here
SeenFirst(o) == LET d == { q \in RangeOf(o.sets) : q.first.some } IN
    [s \in { q.s : q \in d } |-> RangeOf((CHOOSE q \in d : q.s = s).first.v)]
SeenFollow(o) == LET d == { q \in RangeOf(o.sets) : q.follow.some } IN
    [s \in { q.s : q \in d } |-> RangeOf((CHOOSE q \in d : q.s = s).follow.v)]
Usable(g, F, W) ==
    /\ DOMAIN F = NT(g) \cup OutSyms(g)
    /\ DOMAIN W = NT(g)
    /\ \A X \in Term(g) : F[X] = {X}
    /\ \A X \in NT(g) : F[X] \subseteq Tok(g) \cup {g.eps} /\ W[X] \subseteq Tok(g)

\* no cell twice, every listed cell is as predicted, and the others are empty
TableOk(g, F, W, o) ==
    LET P == TLCEval(PredictAll(g, F, W))
        T == TLCEval(TableFrom(g, P))
        full == TLCEval({ << A, a >> \in NT(g) \X Tok(g) : T[A][a] # << >> })
        rhsOf(A, ix) == [k \in DOMAIN ix |-> [l |-> A, r |-> g.prods[ix[k]].r]]
        seen == TLCEval({ << o.table[k].s, o.table[k].a >> : k \in DOMAIN o.table })
    IN /\ Cardinality(seen) = Len(o.table)
       /\ \A k \in DOMAIN o.table :
            LET x == o.table[k] IN
            /\ x.s \in NT(g) /\ x.a \in Tok(g)
            /\ x.ps = rhsOf(x.s, T[x.s][x.a])
       /\ full \subseteq seen

J06(r) ==
    \A o \in RangeOf(r.obs) :
      (o.build = "ok" /\ o.tb # "no") =>
        IF r.given.first # << >>
        THEN LET F == TLCEval(AsFunction(r.given.first))
                 W == TLCEval(AsFunction(r.given.follow))
             IN Usable(r.g, F, W) => o.tb = "ok" /\ TableOk(r.g, F, W, o)
        ELSE o.ff = "ok" =>
             LET F == TLCEval(SeenFirst(o))
                 W == TLCEval(SeenFollow(o))
             IN Usable(r.g, F, W) => o.tb = "ok" /\ TableOk(r.g, F, W, o)

\* ------------------------------------------------------------ C07 - C14
\* every run of every distinct list of results, with the context of r.g
SolverRun(r, n) == r.parsers[r.runs[n].p + 1] = "solver"

ForRuns(r, C(_, _), P(_, _, _, _), all) ==
    r.res # << >> =>
    LET c == TLCEval(C(r.g, r.obs)) IN
    \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
        (all \/ ~SolverRun(r, n)) => P(c, r.runs[n].toks, r.runs[n].lex, TLCEval(WithReport(r.res[v][n])))

\* no outcome at all is a violation of what promises an outcome
NoRunLost(r) == ~(r.fatal # "no" /\ r.stage = "run")

\* every run asked for has a result: grammar and parser could be made
AllRun(r) == \A v \in DOMAIN r.res : Len(r.res[v]) = Len(r.runs)

\* empty inputs are refused, and so are not in scope of C09 and C11
NonEmpty(P(_, _, _, _), c, toks, lex, res) == toks = << >> \/ P(c, toks, lex, res)
N09(c, toks, lex, res) == NonEmpty(P09, c, toks, lex, res)
N11(c, toks, lex, res) == NonEmpty(P11, c, toks, lex, res)

ByAnalysis(g, obs) == Context(g)
J07(r) == ForRuns(r, AsListed, P07, TRUE)
J08(r) == ForRuns(r, AsListed, P08, TRUE)
J09(r) == NoRunLost(r) /\ AllRun(r) /\ ForRuns(r, ByAnalysis, N09, FALSE)
P10(c, toks, lex, res) == IF toks = << >> THEN res.k = "panic" ELSE res.k \in {"ok", "err", "fix"}
J10(r) ==
    /\ NoRunLost(r)
    /\ AllRun(r)
    /\ \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] : P10(0, r.runs[n].toks, 0, r.res[v][n])
J11(r) == NoRunLost(r) /\ AllRun(r) /\ ForRuns(r, AsDeclared, N11, FALSE)
J12(r) == ForRuns(r, AsListed, P12, FALSE)
J13(r) == ForRuns(r, AsListed, P13, FALSE)
J14(r) == ForRuns(r, ByAnalysis, P14, FALSE)

\* ---------------------------------------------------------------- C15
\* runs come in pairs with the same tokens: parser "g" first, then "solver"
Twin(r, n) == CHOOSE m \in DOMAIN r.runs : r.parsers[r.runs[m].p + 1] = "g"
                        /\ r.runs[m].toks = r.runs[n].toks /\ r.runs[m].lex = r.runs[n].lex
J15(r) ==
    r.res # << >> =>
    LET c == TLCEval(AsListed(r.g, r.obs)) IN
    \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
        (SolverRun(r, n) /\ r.runs[n].toks # << >>) =>
        LET res == r.res[v][n]
            twin == r.res[v][Twin(r, n)]
        IN /\ twin.k = "ok" => res.k = "ok" /\ res.tree = twin.tree /\ res.calls = << >>
           /\ res.k = "ok" => twin.k = "ok" /\ res.tree = twin.tree
           /\ \A k \in DOMAIN res.calls : HandedOver(c, r.runs[n].toks, r.runs[n].lex, res.calls[k])

\* ---------------------------------------------------------------- C18
\* runs with the same tokens and the same answers give the same results; "eq"
\* names the run (of this record) each run must be equal to
J18(r) ==
    /\ \A v \in DOMAIN r.res : r.res[v] = r.res[1]
    /\ \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
        r.runs[n].eq >= 0 =>
            LET a == r.res[v][n]  b == r.res[v][r.runs[n].eq + 1] IN
            /\ a.k = b.k /\ a.tree = b.tree /\ a.fs = b.fs /\ a.flat = b.flat /\ a.fx = b.fx
            /\ (SolverRun(r, n) /\ SolverRun(r, r.runs[n].eq + 1)) => a.calls = b.calls

\* ---------------------------------------------------------------- C19
\* all runs are with parsers made from the sets r.given
BySupplied(g, given) == SuppliedContext(g, TLCEval(AsFunction(given.first)), TLCEval(AsFunction(given.follow)))
J19(r) ==
    /\ NoRunLost(r)
    /\ AllRun(r)
    /\ r.res # << >> =>
        LET c == TLCEval(BySupplied(r.g, r.given)) IN
        \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
            LET t == r.runs[n].toks  l == r.runs[n].lex
                x == TLCEval(WithReport(r.res[v][n]))
            IN t # << >> => /\ P11(c, t, l, x)
                            /\ P12(c, t, l, x)
                            /\ x.k = "err" => P13(c, t, l, x)

\* ---------------------------------------------------------------- C20
\* ops: comparisons, hashes and clones of symbols during the parse; looking at
\* the whole grammar a few times for each step is granted
RECURSIVE Width(_, _)
Width(ps, k) == IF k > Len(ps) THEN 0 ELSE Len(ps[k].r) + Width(ps, k + 1)
GrammarSize(g) == Len(g.prods) + Width(g.prods, 1)
PerNode(g) == 20 + 2 * GrammarSize(g)
Sized(x) == Len(x.tree) + ReportSize(x.fs)
\* with a solver only the inputs that parse are promised to be quick
P20(c, toks, x, solver) ==
    (IsLL1(c) /\ x.k \in (IF solver THEN {"ok"} ELSE {"ok", "err"})) =>
        x.ops <= PerNode(c.g) * (Sized(x) + Len(toks) + 4)
J20(r) ==
    /\ NoRunLost(r)
    /\ r.res # << >> =>
        LET c == TLCEval(Context(r.g)) IN
        \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
            P20(c, r.runs[n].toks, TLCEval(WithReport(r.res[v][n])), SolverRun(r, n))

\* ---------------------------------------------------------------- C22
\* the same, by the attempts that the search makes; for runs without a fix
P22(c, toks, x, solver) ==
    (x.k \in {"ok", "err"} /\ \A n \in DOMAIN x.calls : x.calls[n].ans = "no") =>
        x.ops <= PerNode(c.g) * (Effort(c, toks, solver) + Len(toks) + 4)
J22(r) ==
    /\ NoRunLost(r)
    /\ r.res # << >> =>
        LET c == TLCEval(Context(r.g)) IN
        \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
            r.runs[n].toks # << >> => P22(c, r.runs[n].toks, r.res[v][n], SolverRun(r, n))

\* ---------------------------------------------------------------- C21
\* res[n]: the distinct results of run n, the first one alone, the others while
\* other parses were going on
J21(r) ==
    /\ r.fatal = "no"
    /\ Len(r.res) = Len(r.runs)
    /\ \A n \in DOMAIN r.res : r.res[n] = << r.res[n][1] >>
                             /\ P10(0, r.runs[n].toks, 0, r.res[n][1])

\* ---------------------------------------------------------------- C23
\* r.work: operations on symbols of making the grammar, the sets and the table;
\* granted is that each of a few rounds for each non-terminal looks at every
\* symbol of the grammar with every terminal
Rounds23(g) == 40 * (Cardinality(NT(g)) + 2) * (Cardinality(Term(g)) + 1)
J23(r) ==
    /\ r.fatal = "no"
    /\ WellFormed(r.g) => /\ r.work # << >>
                          /\ LET b == Rounds23(r.g)  n == GrammarSize(r.g) IN
                             \A k \in DOMAIN r.work : r.work[k].total \div n <= b

\* ---------------------------------------------------------------- C24
\* lexemes in what was returned
RECURSIVE HeldOk(_, _), HeldParts(_, _), HeldReport(_), HeldEntries(_, _)
HeldTree(t) == Cardinality({ n \in DOMAIN t : t[n].x # NoLex })
HeldParts(ps, k) ==
    IF k > Len(ps) THEN 0
    ELSE (CASE ps[k].k = "ok" -> HeldTree(ps[k].t)
            [] ps[k].k = "fix" -> HeldParts(ps[k].fx[1].parts, 1)
            [] ps[k].k = "gap" -> Len(ps[k].st)) + HeldParts(ps, k + 1)
HeldOk(ok, k) ==
    IF k > Len(ok) THEN 0
    ELSE (IF ok[k].k = "ok" THEN HeldTree(ok[k].t) ELSE HeldParts(ok[k].fx[1].parts, 1)) + HeldOk(ok, k + 1)
HeldEntries(ps, k) ==
    IF k > Len(ps) THEN 0
    ELSE HeldOk(ps[k].ok, 1) + HeldReport(ps[k].f) + HeldEntries(ps, k + 1)
HeldReport(f) == HeldEntries(f.ps, 1)
Held(x) ==
    CASE x.k = "ok" -> HeldTree(x.tree)
      [] x.k = "err" -> HeldReport(x.fs)
      [] x.k = "fix" -> HeldParts(x.fx.parts, 1)
      [] OTHER -> 0

\* live, left: lexemes that exist because of the parse while its result is
\* there and afterwards; syms: symbols that exist because of it afterwards (a
\* parse that follows equal ones adds none, and its bytes are none); r.kept: what is there after the grammar,
\* its sets and the parsers are gone
J24(r) ==
    /\ \A k \in DOMAIN r.kept : r.kept[k] = 0
    /\ \A v \in DOMAIN r.res : \A n \in DOMAIN r.res[v] :
        LET x == r.res[v][n] IN
        /\ x.live = Held(TLCEval(WithReport(x)))
        /\ x.left = 0
        /\ r.runs[n].same => x.syms <= 0 /\ x.bytes <= 0

\* ---------------------------------------------------------------- C25
\* values: tokens of runs[1], productions of the grammar, sets of the caller;
\* folded: the classes of the types that differ in case only
Class(r, s) == IF \E k \in DOMAIN r.folded : r.folded[k].s = s
               THEN r.folded[CHOOSE k \in DOMAIN r.folded : r.folded[k].s = s].c ELSE s
FoldSame(r, a, b) == Class(r, a) = Class(r, b)
AsGiven(given, s, x) ==
    LET k == { n \in DOMAIN given : given[n].s = s } IN
    /\ x.some = (k # {})
    /\ x.some => Lists(x.v, RangeOf(given[CHOOSE n \in k : TRUE].v))
J25(r) ==
    /\ r.fatal = "no"
    /\ \A n \in DOMAIN r.vals :
        LET x == r.vals[n]
            q == r.runs[1]
            ts == [k \in DOMAIN q.toks |-> [s |-> q.toks[k], x |-> q.lex[k]]]
            S(a, b) == IF x.ty = "fold" THEN FoldSame(r, a, b)
                       ELSE a = b /\ (x.ty = "odd" => a # "nan") \* "nan" is not equal to itself
        IN /\ x.eq = EqMatrix(S, ts)
           /\ x.ne = NeMatrix(S, ts)
           /\ x.copies = ts
           /\ x.same = \A k \in DOMAIN ts : S(ts[k].s, ts[k].s)
           /\ x.prods = r.g.prods
           /\ x.again = r.g.prods
           /\ x.ty # "fold" => \A k \in DOMAIN x.seen :
                /\ AsGiven(r.given.first, x.seen[k].s, x.seen[k].first)
                /\ AsGiven(r.given.follow, x.seen[k].s, x.seen[k].follow)

Judge(r) ==
    CASE Prop = "C01" -> J01(r) [] Prop = "C02" -> J02(r) [] Prop = "C03" -> J03(r)
      [] Prop = "C04" -> J04(r) [] Prop = "C05" -> J05(r) [] Prop = "C06" -> J06(r)
      [] Prop = "C07" -> J07(r) [] Prop = "C08" -> J08(r) [] Prop = "C09" -> J09(r)
      [] Prop = "C10" -> J10(r) [] Prop = "C11" -> J11(r) [] Prop = "C12" -> J12(r)
      [] Prop = "C13" -> J13(r) [] Prop = "C14" -> J14(r) [] Prop = "C15" -> J15(r)
      [] Prop = "C18" -> J18(r) [] Prop = "C19" -> J19(r) [] Prop = "C20" -> J20(r)
      [] Prop = "C21" -> J21(r) [] Prop = "C22" -> J22(r)
      [] Prop = "C23" -> J23(r) [] Prop = "C24" -> J24(r)
      [] Prop = "C25" -> J25(r)

Allowed == i # 0 => Judge(Recs[i])
=============================================================================
