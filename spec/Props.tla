-------------------------------- MODULE Props --------------------------------
(***************************************************************************)
(* The listed properties about parses, as predicates on what can be         *)
(* observed: a context c (grammar with its FIRST, FOLLOW and table), the     *)
(* input (toks, lex) and the result                                          *)
(*      res = [k |-> "ok" | "err" | "fix" | ..., tree, fs, fx].               *)
(* The same predicates are invariants of the parser machine in the           *)
(* model-checking configurations, and are evaluated on observations recorded *)
(* from the implementation (Records.tla).                                    *)
(***************************************************************************)
EXTENDS Predictive

\* ------------------------------------------------------------------- trees
\* the preorder sequence is a tree: every node finds itself announced by the
\* node above it, and nothing is left over
TreeStep(st, n) ==
    IF st = << >> \/ Head(st) # n.s THEN << "?" >>
    ELSE n.c \o Tail(st)
RECURSIVE TreeRun(_, _, _)
TreeRun(t, n, st) == IF n > Len(t) THEN st ELSE TreeRun(t, n + 1, TLCEval(TreeStep(st, t[n])))
IsTree(t) == Len(t) >= 1 /\ TreeRun(t, 1, << t[1].s >>) = << >>

\* an inner node spells one of its productions; other nodes have no children
NodeOk(c, n) == IF n.s \in c.nt THEN n.c \in c.outs[n.s] ELSE n.c = << >> /\ n.s \in c.term

Derivation(c, t, A) ==
    /\ t # << >>
    /\ t[1].s = A
    /\ \A n \in DOMAIN t : NodeOk(c, t[n])

\* the token leaves of a tree: everything that is neither eps nor an inner node
TokenLeaves(c, t) == SelectSeq(t, LAMBDA n : n.s # c.g.eps /\ n.s \notin c.nt)
Yield(c, t) == Len(TokenLeaves(c, t))

\* leaves = toks[from+1 ..] with their lexemes
LeavesAre(c, t, toks, lex, from) ==
    LET y == TLCEval(TokenLeaves(c, t)) IN
    /\ from + Len(y) <= Len(toks)
    /\ \A k \in DOMAIN y : y[k].s = toks[from + k] /\ y[k].x = lex[from + k]

\* inner nodes and empty words carry no lexeme
BareInner(c, t) == \A n \in DOMAIN t : (t[n].s = c.g.eps \/ t[n].s \in c.nt) => t[n].x = NoLex

\* ---------------------------------------------------------------- reports
RECURSIVE OkWidth(_, _, _)
OkWidth(c, ok, k) == IF k > Len(ok) THEN 0 ELSE Yield(c, ok[k].t) + OkWidth(c, ok, k + 1)

AllTrees(ok) == \A k \in DOMAIN ok : ok[k].k = "ok"

ParsedSym(p) == IF p.k = "ok" THEN (IF p.t = << >> THEN "" ELSE p.t[1].s)
                ELSE (IF p.fx = << >> THEN "" ELSE p.fx[1].s)

\* entry e splits the output r exactly
EntrySplits(e, r) ==
    /\ Len(e.ok) + 1 + Len(e.pe) = Len(r)
    /\ \A k \in DOMAIN e.ok : ParsedSym(e.ok[k]) = r[k]
    /\ e.f.s = r[Len(e.ok) + 1]
    /\ \A k \in DOMAIN e.pe : e.pe[k] = r[Len(e.ok) + 1 + k]

\* the output that an entry splits
Spelled(e) == [k \in DOMAIN e.ok |-> ParsedSym(e.ok[k])] \o << e.f.s >> \o e.pe

\* a report without the lexemes
BareTree(t) == [n \in DOMAIN t |-> << t[n].s, t[n].c >>]
RECURSIVE BareReport(_)
BareReport(f) ==
    << f.s, [k \in DOMAIN f.ps |->
        << BareReport(f.ps[k].f),
           [m \in DOMAIN f.ps[k].ok |-> << f.ps[k].ok[m].k, BareTree(f.ps[k].ok[m].t) >>],
           f.ps[k].pe >>] >>

\* a report for symbol f.s at position i accounts for everything
RECURSIVE ReportAccounts(_, _, _, _)
ReportAccounts(c, toks, f, i) ==
    LET cs == Cands(c, toks, f.s, i) IN
    /\ Len(f.ps) = Len(cs)
    /\ \A k \in DOMAIN cs :
         /\ EntrySplits(f.ps[k], c.g.prods[cs[k]].r)
         /\ AllTrees(f.ps[k].ok) =>
              ReportAccounts(c, toks, f.ps[k].f, i + OkWidth(c, f.ps[k].ok, 1))

\* a report for symbol f.s at position i is truthful
RECURSIVE OkTruthful(_, _, _, _, _, _)
OkTruthful(c, toks, lex, ok, k, i) ==
    \/ k > Len(ok)
    \/ /\ ok[k].k = "ok"
       /\ ok[k].t # << >>
       /\ Derivation(c, ok[k].t, ok[k].t[1].s)
       /\ LeavesAre(c, ok[k].t, toks, lex, i)
       /\ BareInner(c, ok[k].t)
       /\ OkTruthful(c, toks, lex, ok, k + 1, i + Yield(c, ok[k].t))

RECURSIVE ReportTruthful(_, _, _, _, _)
ReportTruthful(c, toks, lex, f, i) ==
    /\ i <= Len(toks)
    /\ f.s \notin c.nt => f.ps = << >> /\ f.s # c.g.eps
                          /\ (i = Len(toks) \/ toks[i + 1] # f.s)
    /\ (f.s \in c.nt /\ f.ps = << >>) => Cands(c, toks, f.s, i) = << >>
    /\ \A k \in DOMAIN f.ps :
         /\ OkTruthful(c, toks, lex, f.ps[k].ok, 1, i)
         /\ ReportTruthful(c, toks, lex, f.ps[k].f, i + OkWidth(c, f.ps[k].ok, 1))

\* how many nodes a report has, those of its trees included
RECURSIVE ReportSize(_), EntriesSize(_, _), TreesSize(_, _)
TreesSize(ok, k) == IF k > Len(ok) THEN 0 ELSE Len(ok[k].t) + TreesSize(ok, k + 1)
EntriesSize(ps, k) == IF k > Len(ps) THEN 0
    ELSE TreesSize(ps[k].ok, 1) + Len(ps[k].pe) + ReportSize(ps[k].f) + EntriesSize(ps, k + 1)
ReportSize(f) == 1 + EntriesSize(f.ps, 1)

\* position reached by the (single) chain of entries
RECURSIVE ChainEnd(_, _, _)
ChainEnd(c, f, i) ==
    IF f.ps = << >> THEN i
    ELSE ChainEnd(c, f.ps[1].f, i + OkWidth(c, f.ps[1].ok, 1))

\* ------------------------------------------------- properties of a result
P07(c, toks, lex, res) == res.k = "ok" => Derivation(c, res.tree, c.g.start)

P08(c, toks, lex, res) ==
    res.k = "ok" => /\ LeavesAre(c, res.tree, toks, lex, 0)
                    /\ BareInner(c, res.tree)

\* the input up to its first end marker
UpTo(toks, z) ==
    IF \E i \in DOMAIN toks : toks[i] = z
    THEN SubSeq(toks, 1, CHOOSE i \in DOMAIN toks : toks[i] = z /\ \A j \in 1..(i - 1) : toks[j] # z)
    ELSE toks

\* in scope of C09 / C14
Marked(c) == IsLL1(c) /\ HasEndMarker(c.g)
Locatable(c) == IsLL1(c) /\ AllProductive(c.g)

P09(c, toks, lex, res) ==
    Marked(c) =>
        LET u == UpTo(toks, EndMarker(c.g)) IN
        /\ (res.k = "ok") = AcceptsAll(c, u)
        /\ res.k = "ok" => /\ Derivation(c, res.tree, c.g.start)
                           /\ LeavesAre(c, res.tree, toks, lex, 0)
                           /\ Yield(c, res.tree) = Len(u)

P11(c, toks, lex, res) ==
    LET m == ParseResult(c, toks, lex) IN
    /\ res.k = m.k
    /\ res.k = "ok" => BareTree(res.tree) = BareTree(m.tree)

P12(c, toks, lex, res) ==
    res.k = "err" =>
        /\ res.fs.s = c.g.start
        /\ ReportAccounts(c, toks, res.fs, 0)
        /\ LET m == ParseResult(c, toks, lex) IN m.k = "err" => BareReport(m.fs) = BareReport(res.fs)

P13(c, toks, lex, res) ==
    res.k = "err" => ReportTruthful(c, toks, lex, res.fs, 0)

P14(c, toks, lex, res) ==
    (res.k = "err" /\ Locatable(c)) => LocatedAt(c, toks, ChainEnd(c, res.fs, 0))

\* --------------------------------------------- properties of consultations
\* call = [kind, pos, ps, ...]; A could not be parsed there, and ps are its entries
HandedOver(c, toks, lex, call) ==
    \E A \in c.nt \cup {c.g.start} :
       LET cs == Cands(c, toks, A, call.pos) IN
       /\ Len(cs) = Len(call.ps)
       /\ \A k \in DOMAIN cs : Spelled(call.ps[k]) = c.g.prods[cs[k]].r
       /\ ~SymMatch(c, toks, lex, A, call.pos).ok
=============================================================================
