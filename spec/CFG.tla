-------------------------------- MODULE CFG --------------------------------
(***************************************************************************)
(* Context-free grammars as the library understands them, and the standard *)
(* notions about them (nullable, FIRST, FOLLOW, PREDICT, LL(1), left        *)
(* recursion).  Everything here is a constant-level definition: the state   *)
(* machines (GrammarBuild, FirstFollow, Parser) are checked against these   *)
(* definitions, and so are the observations of the implementation.          *)
(*                                                                         *)
(* A grammar is a record                                                   *)
(*   [eps   |-> symbol,          the empty-word symbol                      *)
(*    start |-> symbol,          the initial symbol                         *)
(*    prods |-> Seq([l |-> symbol, r |-> Seq(symbol)])]                     *)
(* with symbols as strings; the order of prods is the declaration order.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RangeOf(s) == { s[i] : i \in DOMAIN s }

\* ------------------------------------------------------------ well-formed
WellFormedProd(eps, p) ==
    /\ p.l # eps
    /\ Len(p.r) >= 1
    /\ Len(p.r) > 1 => \A i \in DOMAIN p.r : p.r[i] # eps

WellFormed(g) == \A k \in DOMAIN g.prods : WellFormedProd(g.eps, g.prods[k])

\* ---------------------------------------------------------------- symbols
NT(g)      == { g.prods[k].l : k \in DOMAIN g.prods }
OutSyms(g) == UNION { RangeOf(g.prods[k].r) : k \in DOMAIN g.prods }
Term(g)    == OutSyms(g) \ NT(g)            \* includes eps where it is used
Tok(g)     == Term(g) \ {g.eps}             \* what can match an input token

\* indices of the productions of A, in declaration order
ProdIdx(g, A) == SelectSeq([k \in 1..Len(g.prods) |-> k], LAMBDA k : g.prods[k].l = A)
ProdsOf(g, A) == LET ix == ProdIdx(g, A) IN [k \in 1..Len(ix) |-> g.prods[ix[k]].r]

\* ------------------------------------------------------------------ FIRST
\* F is a function on all symbols; FIRST of the output r from position k on
RECURSIVE FirstSeq(_, _, _, _)
FirstSeq(F, eps, r, k) ==
    IF k > Len(r) THEN {eps}
    ELSE IF eps \in F[r[k]]
         THEN (F[r[k]] \ {eps}) \cup FirstSeq(F, eps, r, k + 1)
         ELSE F[r[k]]

FirstStart(g) == [X \in NT(g) \cup OutSyms(g) |-> IF X \in NT(g) THEN {} ELSE {X}]

\* the productions of each non-terminal
ByLeft(g) == [X \in NT(g) |-> { k \in DOMAIN g.prods : g.prods[k].l = X }]

FirstRound(g, by, F) ==
    [X \in DOMAIN F |->
        IF X \in DOMAIN by
        THEN F[X] \cup UNION { FirstSeq(F, g.eps, g.prods[k].r, 1) : k \in by[X] }
        ELSE F[X]]

RECURSIVE FirstLfp(_, _, _)
FirstLfp(g, by, F) == LET G == TLCEval(FirstRound(g, by, F))
                      IN IF G = F THEN F ELSE FirstLfp(g, by, G)

First(g) == FirstLfp(g, TLCEval(ByLeft(g)), TLCEval(FirstStart(g)))

Nullable(g, F, X) == g.eps \in F[X]

\* ----------------------------------------------------------------- FOLLOW
FollowStart(g) == [X \in NT(g) |-> {}]

\* what production k contributes to FOLLOW(X)
FollowFrom(g, F, W, k, X) ==
    LET p == g.prods[k] IN
    UNION { LET f == FirstSeq(F, g.eps, p.r, i + 1)
            IN (f \ {g.eps}) \cup (IF g.eps \in f THEN W[p.l] ELSE {}) :
            i \in { j \in DOMAIN p.r : p.r[j] = X } }

\* where X occurs: what the rest of that output can begin with, and whose output
Occurrences(g, F) ==
    LET all == TLCEval(UNION { { [x |-> g.prods[k].r[i], l |-> g.prods[k].l,
                                  f |-> FirstSeq(F, g.eps, g.prods[k].r, i + 1)] :
                                 i \in { j \in DOMAIN g.prods[k].r : g.prods[k].r[j] \in NT(g) } } :
                               k \in DOMAIN g.prods })
    IN [X \in NT(g) |-> { o \in all : o.x = X }]

FollowRound(g, occ, W) ==
    [X \in DOMAIN W |-> W[X] \cup
        UNION { (o.f \ {g.eps}) \cup (IF g.eps \in o.f THEN W[o.l] ELSE {}) : o \in occ[X] }]

RECURSIVE FollowLfp(_, _, _)
FollowLfp(g, occ, W) == LET V == TLCEval(FollowRound(g, occ, W))
                        IN IF V = W THEN W ELSE FollowLfp(g, occ, V)

Follow(g, F) == FollowLfp(g, TLCEval(Occurrences(g, F)), TLCEval(FollowStart(g)))

\* ---------------------------------------------------------------- PREDICT
Predict(g, F, W, k) ==
    LET f == FirstSeq(F, g.eps, g.prods[k].r, 1)
    IN (f \ {g.eps}) \cup (IF g.eps \in f THEN W[g.prods[k].l] ELSE {})

PredictAll(g, F, W) == [k \in DOMAIN g.prods |-> Predict(g, F, W, k)]

\* candidates (production indices, declaration order) for A at lookahead a
CellOver(ix, P, a) == SelectSeq(ix, LAMBDA k : a \in P[k])

TableFrom(g, P) ==
    LET T == TLCEval(Tok(g)) IN
    [A \in NT(g) |-> LET ix == TLCEval(ProdIdx(g, A)) IN TLCEval([a \in T |-> CellOver(ix, P, a)])]

\* ------------------------------------------------------- derived contexts
\* everything the parser needs to know about a grammar, computed once
Context(g) ==
    LET F == TLCEval(First(g))
        W == TLCEval(Follow(g, F))
        P == TLCEval(PredictAll(g, F, W))
        N == TLCEval(NT(g))
    IN TLCEval([ g |-> g, nt |-> N, term |-> Term(g), tok |-> Tok(g), first |-> F, follow |-> W,
         outs |-> [A \in N |-> RangeOf(ProdsOf(g, A))],
         predict |-> P, table |-> TableFrom(g, P) ])

\* a list of [s, v] records as a function to sets
AsFunction(l) == [s \in { l[k].s : k \in DOMAIN l } |->
                    RangeOf(l[CHOOSE k \in DOMAIN l : l[k].s = s].v)]

\* the context in which candidates are predicted by supplied FIRST and FOLLOW
\* sets, which need not be those of the grammar
SuppliedContext(g, F, W) ==
    LET P == TLCEval(PredictAll(g, F, W)) IN
    TLCEval([Context(g) EXCEPT !.predict = P, !.table = TableFrom(g, P)])

\* the context with candidates taken from somewhere else than the analysis:
\* cell(A, a) is the sequence of production indices
Skeleton(g, cell(_, _)) ==
    LET N == TLCEval(NT(g)) T == TLCEval(Tok(g))
    IN TLCEval([ g |-> g, nt |-> N, term |-> Term(g), tok |-> T,
         outs |-> [A \in N |-> RangeOf(ProdsOf(g, A))],
         table |-> [A \in N |-> TLCEval([a \in T |-> cell(A, a)])] ])

\* candidates of A at position i (0-based) of toks; none at the end of input
Cands(c, toks, A, i) ==
    IF i < Len(toks) /\ A \in c.nt /\ toks[i + 1] \in c.tok
    THEN c.table[A][toks[i + 1]] ELSE << >>

IsLL1(c) == \A A \in c.nt : \A a \in c.tok : Len(c.table[A][a]) <= 1

\* ----------------------------------------------- reachability, recursion
\* transitive closure of a relation given as a function S -> SUBSET S
RECURSIVE Closure(_)
Closure(R) ==
    LET Q == TLCEval([x \in DOMAIN R |-> R[x] \cup UNION { R[y] : y \in R[x] }])
    IN IF Q = R THEN R ELSE Closure(Q)

\* X -> Y when some production of X has Y after a nullable prefix
LeftEdges(g, F) ==
    [X \in NT(g) |->
       UNION { LET r == g.prods[k].r IN
               { r[i] : i \in { j \in DOMAIN r :
                     /\ r[j] \in NT(g)
                     /\ \A m \in 1..(j - 1) : g.eps \in F[r[m]] } } :
               k \in { j \in DOMAIN g.prods : g.prods[j].l = X } }]

LeftRecursive(g, F) == LET R == Closure(TLCEval(LeftEdges(g, F)))
                       IN \E X \in NT(g) : X \in R[X]

\* productive symbols: derive some string of tokens
RECURSIVE ProductiveLfp(_, _)
ProductiveLfp(g, S) ==
    LET T == TLCEval(S \cup { g.prods[k].l : k \in
                { j \in DOMAIN g.prods : \A i \in DOMAIN g.prods[j].r : g.prods[j].r[i] \in S } })
    IN IF T = S THEN S ELSE ProductiveLfp(g, T)

Productive(g) == ProductiveLfp(g, Term(g))
AllProductive(g) == NT(g) \subseteq Productive(g) /\ g.start \in NT(g)

\* ------------------------------------------------------------- end marker
\* every production of the initial symbol ends with the same terminal, which
\* occurs nowhere else, and the initial symbol itself occurs in no output
EndMarkers(g) ==
    { z \in Tok(g) :
        /\ g.start \in NT(g)
        /\ g.start \notin OutSyms(g)
        /\ \A k \in DOMAIN g.prods :
             LET r == g.prods[k].r IN
             IF g.prods[k].l = g.start
             THEN r[Len(r)] = z /\ \A i \in 1..(Len(r) - 1) : r[i] # z
             ELSE \A i \in DOMAIN r : r[i] # z }

HasEndMarker(g) == EndMarkers(g) # {}
EndMarker(g) == CHOOSE z \in EndMarkers(g) : TRUE
=============================================================================
