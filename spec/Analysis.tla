------------------------------- MODULE Analysis -------------------------------
(***************************************************************************)
(* The analysis of a grammar as a state machine: FIRST and then FOLLOW are    *)
(* computed in rounds; a round applies every production once, in an arbitrary *)
(* order (hash iteration), and a round that changed something is followed by  *)
(* another one.  Then the prediction table is filled, the productions of one  *)
(* symbol in declaration order, and the symbols in an arbitrary order.        *)
(***************************************************************************)
EXTENDS CFG

CONSTANT Of(_)    \* index -> well-formed grammar

VARIABLES in,      \* index of the grammar; constant
          phase,   \* "first" | "follow" | "table" | "done"
          F, W, T, \* FIRST, FOLLOW, table so far
          round,   \* productions not yet applied in this round
          changed, \* this round changed something
          rounds   \* rounds begun in this phase

avars == << in, phase, F, W, T, round, changed, rounds >>
G == Of(in)
All == DOMAIN G.prods

AInit(S) ==
    /\ in \in S
    /\ phase = "first"
    /\ F = FirstStart(G) /\ W = FollowStart(G)
    /\ T = [A \in NT(G) |-> [a \in Tok(G) |-> << >>]]
    /\ round = All /\ changed = FALSE /\ rounds = 1

\* one production contributes what its output can begin with at the moment
ApplyFirst(k) ==
    /\ phase = "first" /\ k \in round
    /\ LET p == G.prods[k]
           v == F[p.l] \cup FirstSeq(F, G.eps, p.r, 1)
       IN /\ F' = [F EXCEPT ![p.l] = v]
          /\ changed' = (changed \/ v # F[p.l])
    /\ round' = round \ {k}
    /\ UNCHANGED << in, phase, W, T, rounds >>

ApplyFollow(k) ==
    /\ phase = "follow" /\ k \in round
    /\ LET V == [X \in DOMAIN W |-> W[X] \cup FollowFrom(G, F, W, k, X)]
       IN /\ W' = V
          /\ changed' = (changed \/ V # W)
    /\ round' = round \ {k}
    /\ UNCHANGED << in, phase, F, T, rounds >>

NextRound ==
    /\ phase \in {"first", "follow"} /\ round = {} /\ changed
    /\ round' = All /\ changed' = FALSE /\ rounds' = rounds + 1
    /\ UNCHANGED << in, phase, F, W, T >>

Converged ==
    /\ phase \in {"first", "follow"} /\ round = {} /\ ~changed
    /\ phase' = IF phase = "first" THEN "follow" ELSE "table"
    /\ round' = All /\ changed' = FALSE /\ rounds' = 1
    /\ UNCHANGED << in, F, W, T >>

Fill(k) ==
    /\ phase = "table" /\ k \in round
    /\ \A j \in round : G.prods[j].l = G.prods[k].l => k <= j
    /\ LET f == FirstSeq(F, G.eps, G.prods[k].r, 1)
           P == (f \ {G.eps}) \cup (IF G.eps \in f THEN W[G.prods[k].l] ELSE {})
       IN T' = [T EXCEPT ![G.prods[k].l] = [a \in DOMAIN @ |-> IF a \in P THEN Append(@[a], k) ELSE @[a]]]
    /\ round' = round \ {k}
    /\ UNCHANGED << in, phase, F, W, changed, rounds >>

Filled == phase = "table" /\ round = {} /\ phase' = "done" /\ UNCHANGED << in, F, W, T, round, changed, rounds >>

ANext == (\E k \in round : ApplyFirst(k) \/ ApplyFollow(k) \/ Fill(k)) \/ NextRound \/ Converged \/ Filled

\* ---------------------------------------------------------------- checking
Lfp == TLCEval(First(G))
\* C03, C04: never too much, and in the end exactly the definition
FirstExact == /\ \A X \in DOMAIN F : F[X] \subseteq Lfp[X]
              /\ phase # "first" => F = Lfp
FollowExact == phase # "first" =>
              LET V == TLCEval(Follow(G, Lfp)) IN
              /\ \A X \in DOMAIN W : W[X] \subseteq V[X] /\ G.eps \notin W[X]
              /\ phase \in {"table", "done"} => W = V
\* C06
TableExact == phase = "done" =>
              /\ T = TableFrom(G, PredictAll(G, F, W))
              /\ \A A \in DOMAIN T : \A a \in DOMAIN T[A] : \A i, j \in DOMAIN T[A][a] : i < j => T[A][a][i] < T[A][a][j]
\* C05: whatever the order, the same end; and an end there is: every round but
\* the last one adds a member to some set
Bounded == rounds <= 2 + Cardinality(NT(G)) * (Cardinality(Tok(G)) + 1)
\* C23: few rounds are needed in any order: what is nullable is known after one
\* round for each non-terminal, and the members then need as many to travel
FewRounds == rounds <= 2 + (IF phase = "first" THEN 2 ELSE 1) * Cardinality(NT(G))
Grows == [][ /\ \A X \in DOMAIN F : F[X] \subseteq F'[X]
             /\ \A X \in DOMAIN W : W[X] \subseteq W'[X] ]_avars
AnalysisEnds == <>(phase = "done")
=============================================================================
