------------------------------ MODULE Language ------------------------------
(***************************************************************************)
(* The language of a grammar, independently of any parsing strategy:       *)
(* which symbol derives which span of a token sequence, and which token     *)
(* sequences are prefixes of sentences.  Used as the oracle for what the     *)
(* parser accepts and where it must stop, and cross-checked against literal *)
(* derivations by the Derive module.                                       *)
(***************************************************************************)
EXTENDS CFG

\* ---- spans: Sp[A][i] = set of j such that A derives toks[i+1..j]
SpanAfter(g, Sp, toks, X, I) ==
    IF X = g.eps THEN I
    ELSE IF X \in DOMAIN Sp THEN UNION { Sp[X][i] : i \in I }
    ELSE { i + 1 : i \in { j \in I : j < Len(toks) /\ toks[j + 1] = X } }

RECURSIVE SpanSeq(_, _, _, _, _, _)
SpanSeq(g, Sp, toks, r, k, I) ==
    IF k > Len(r) \/ I = {} THEN I
    ELSE SpanSeq(g, Sp, toks, r, k + 1, SpanAfter(g, Sp, toks, r[k], I))

SpanRound(g, by, toks, Sp) ==
    [A \in DOMAIN Sp |-> TLCEval([i \in 0..Len(toks) |->
        Sp[A][i] \cup UNION { SpanSeq(g, Sp, toks, g.prods[k].r, 1, {i}) : k \in by[A] }])]

RECURSIVE SpanLfp(_, _, _, _)
SpanLfp(g, by, toks, Sp) == LET Q == TLCEval(SpanRound(g, by, toks, Sp))
                            IN IF Q = Sp THEN Sp ELSE SpanLfp(g, by, toks, Q)

Spans(g, toks) == SpanLfp(g, TLCEval(ByLeft(g)), toks, TLCEval([A \in NT(g) |-> [i \in 0..Len(toks) |-> {}]]))

\* some prefix of toks is a sentence / toks is a sentence
BeginsWithSentence(g, toks) == g.start \in NT(g) /\ Spans(g, toks)[g.start][0] # {}
IsSentence(g, toks) == g.start \in NT(g) /\ Len(toks) \in Spans(g, toks)[g.start][0]

\* ---- viable prefixes (for grammars whose symbols are all productive):
\* Vi[A] = positions i such that A derives a string that starts with the
\* whole rest toks[i+1..]; a terminal does so only at the end of toks
ViableSym(g, Vi, toks, X, I) ==
    \/ Len(toks) \in I
    \/ X \in DOMAIN Vi /\ I \cap Vi[X] # {}

RECURSIVE ViableSeq(_, _, _, _, _, _, _)
ViableSeq(g, Sp, Vi, toks, r, k, I) ==
    IF I = {} THEN FALSE
    ELSE IF Len(toks) \in I THEN TRUE
    ELSE IF k > Len(r) THEN FALSE
    ELSE \/ ViableSym(g, Vi, toks, r[k], I)
         \/ ViableSeq(g, Sp, Vi, toks, r, k + 1, SpanAfter(g, Sp, toks, r[k], I))

RECURSIVE ViableLfp(_, _, _, _, _)
ViableLfp(g, by, Sp, toks, Vi) ==
    LET Q == TLCEval([A \in DOMAIN Vi |-> Vi[A] \cup
               { i \in 0..Len(toks) : \E k \in by[A] :
                    ViableSeq(g, Sp, Vi, toks, g.prods[k].r, 1, {i}) }])
    IN IF Q = Vi THEN Vi ELSE ViableLfp(g, by, Sp, toks, Q)

ViablePrefix(g, toks) ==
    LET Sp == TLCEval(Spans(g, toks))
        Vi == ViableLfp(g, TLCEval(ByLeft(g)), Sp, toks, TLCEval([A \in NT(g) |-> {}]))
    IN g.start \in NT(g) /\ 0 \in Vi[g.start]
=============================================================================
