------------------------------ MODULE Families ------------------------------
(***************************************************************************)
(* Bounded families of grammars and inputs, from which the model-checking   *)
(* configurations and the replayed behaviours are drawn.                    *)
(***************************************************************************)
EXTENDS CFG, Randomization

\* all sequences over S of length lo..hi
SeqsOf(S, lo, hi) == UNION { [1..n -> S] : n \in lo..hi }

Eps == "e"
Marker == "z"

\* outputs over the given symbols
Outputs(syms, hi) == { <<Eps>> } \cup SeqsOf(syms, 1, hi)

\* grammar from alternatives: alts is a sequence of << A, Seq(output) >>
RECURSIVE FlatAlts(_, _)
FlatAlts(alts, k) ==
    IF k > Len(alts) THEN << >>
    ELSE [j \in 1..Len(alts[k][2]) |-> [l |-> alts[k][1], r |-> alts[k][2][j]]]
         \o FlatAlts(alts, k + 1)
Grammar(alts) == [eps |-> Eps, start |-> alts[1][1], prods |-> FlatAlts(alts, 1)]

\* like Grammar, but every output of the initial symbol ends with the marker
MarkedGrammar(alts) ==
    LET g == Grammar(alts) IN
    [g EXCEPT !.prods = [k \in DOMAIN @ |->
        IF @[k].l = g.start
        THEN [l |-> @[k].l, r |-> IF @[k].r = <<Eps>> THEN <<Marker>> ELSE Append(@[k].r, Marker)]
        ELSE @[k]]]

\* a random output: the empty word now and then, otherwise 1..hi symbols
RandomOutput(syms, hi) ==
    LET d == RandomElement(1..10) IN
    IF d <= 2 THEN << Eps >>
    ELSE LET m == IF d <= 4 THEN 1 ELSE RandomElement(1..hi)
         IN [j \in 1..m |-> RandomElement(syms)]

\* one random sequence of 1..n alternatives (possibly with repeats)
RandomAlts(syms, hi, n) ==
    LET m == RandomElement(1..n) IN [j \in 1..m |-> TLCEval(RandomOutput(syms, hi))]

RandomGrammarOver(nts, toks, hi, n, marked) ==
    LET all  == { nts[k] : k \in DOMAIN nts } \cup toks
        syms == IF marked THEN all \ {nts[1]} ELSE all
        alts == TLCEval([k \in DOMAIN nts |->
                   << nts[k], TLCEval(RandomAlts(syms, IF k = 1 THEN hi + 1 ELSE hi, n)) >>])
    IN TLCEval(IF marked THEN MarkedGrammar(alts) ELSE Grammar(alts))

\* the symbols reachable from the initial one
ReachEdges(g) == [X \in NT(g) |-> UNION { RangeOf(g.prods[k].r) \cap NT(g) :
                                           k \in { j \in DOMAIN g.prods : g.prods[j].l = X } }]
AllReachable(g) == NT(g) \ {g.start} \subseteq Closure(TLCEval(ReachEdges(g)))[g.start]

\* every production used by some derivation of a string, and a choice to make
Lively(g) == AllProductive(g) /\ AllReachable(g)

Parsable(g) == WellFormed(g) /\ ~LeftRecursive(g, TLCEval(First(g)))

\* a random grammar of the kind that the parser supports (left recursion is
\* outside what recursive descent can parse); drawn again until it fits
RECURSIVE RandomParsable(_, _, _, _, _, _)
RandomParsable(nts, toks, hi, n, marked, lively) ==
    LET g == RandomGrammarOver(nts, toks, hi, n, marked)
    IN IF Parsable(g) /\ (lively => Lively(g)) THEN g
       ELSE RandomParsable(nts, toks, hi, n, marked, lively)

\* LL(1) ones, mostly with an end marker
RECURSIVE RandomLL1(_, _, _, _, _)
RandomLL1(nts, toks, hi, n, marked) ==
    LET g == RandomGrammarOver(nts, toks, hi, n, marked)
    IN IF Parsable(g) /\ AllProductive(g) /\ IsLL1(Context(g)) THEN g
       ELSE RandomLL1(nts, toks, hi, n, marked)
=============================================================================
