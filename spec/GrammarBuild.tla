---------------------------- MODULE GrammarBuild ----------------------------
(***************************************************************************)
(* Building a grammar from a list of productions, as a state machine: the    *)
(* productions are grouped by their input in declaration order, the groups   *)
(* are checked in an arbitrary order (they live in a hash map), and then the *)
(* symbols are collected, again in an arbitrary order.                       *)
(***************************************************************************)
EXTENDS CFG

CONSTANT Given(_)    \* index -> [eps, start, prods], well-formed or not

VARIABLES in,     \* index of what is built
          pc,     \* "group" | "check" | "collect" | "ok" | "panic"
          n,      \* productions grouped so far
          map,    \* input -> sequence of its outputs
          todo,   \* groups still to check, then to collect from
          terms   \* terminals collected so far

bvars == << in, pc, n, map, todo, terms >>
D == Given(in)

BInit(S) == /\ in \in S /\ pc = "group" /\ n = 0 /\ map = << >> /\ todo = {} /\ terms = {}

Group ==
    /\ pc = "group" /\ n < Len(D.prods)
    /\ LET p == D.prods[n + 1] IN
       map' = IF p.l \in DOMAIN map
              THEN [map EXCEPT ![p.l] = Append(@, p.r)]
              ELSE [x \in DOMAIN map \cup {p.l} |-> IF x = p.l THEN << p.r >> ELSE map[x]]
    /\ n' = n + 1
    /\ UNCHANGED << in, pc, todo, terms >>

Grouped ==
    /\ pc = "group" /\ n = Len(D.prods)
    /\ pc' = "check" /\ todo' = DOMAIN map
    /\ UNCHANGED << in, n, map, terms >>

BadOutput(r) == Len(r) = 0 \/ (Len(r) > 1 /\ D.eps \in RangeOf(r))

Check(A) ==
    /\ pc = "check" /\ A \in todo
    /\ IF A = D.eps \/ \E k \in DOMAIN map[A] : BadOutput(map[A][k])
       THEN pc' = "panic" /\ UNCHANGED todo
       ELSE todo' = todo \ {A} /\ UNCHANGED pc
    /\ UNCHANGED << in, n, map, terms >>

Checked ==
    /\ pc = "check" /\ todo = {}
    /\ pc' = "collect" /\ todo' = DOMAIN map
    /\ UNCHANGED << in, n, map, terms >>

Collect(A) ==
    /\ pc = "collect" /\ A \in todo
    /\ todo' = todo \ {A}
    /\ terms' = terms \cup (UNION { RangeOf(map[A][k]) : k \in DOMAIN map[A] } \ DOMAIN map)
    /\ UNCHANGED << in, pc, n, map >>

Collected == pc = "collect" /\ todo = {} /\ pc' = "ok" /\ UNCHANGED << in, n, map, todo, terms >>

BNext == Group \/ Grouped \/ (\E A \in todo : Check(A)) \/ Checked
         \/ (\E A \in todo : Collect(A)) \/ Collected

BEnd == pc \in {"ok", "panic"}

\* C01: built exactly when well-formed, in whatever order it was checked
ExactlyWellFormed == BEnd => (pc = "ok") = WellFormed(D)
\* C02: the result is what was given
ExactlyGiven == pc = "ok" =>
    /\ DOMAIN map = NT(D)
    /\ \A A \in DOMAIN map : map[A] = ProdsOf(D, A)
    /\ terms = Term(D)
    /\ terms \cap DOMAIN map = {}
BuildEnds == <>(pc \in {"ok", "panic"})
=============================================================================
