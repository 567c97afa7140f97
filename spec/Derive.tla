-------------------------------- MODULE Derive --------------------------------
(***************************************************************************)
(* FIRST, FOLLOW and the language from first principles: sentential forms are *)
(* derived step by step, any non-terminal being replaced by any of its         *)
(* outputs, within a length bound.  The definitions of CFG and Language, which *)
(* everything else is checked against, are compared with what the derived      *)
(* forms really show.                                                          *)
(***************************************************************************)
EXTENDS Language, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.JOBS)
L == atoi(IOEnv.BOUND)      \* longest sentential form
K == atoi(IOEnv.SLACK)      \* forms up to this length must account for everything

VARIABLES in, forms, fresh, pieces, heads
dvars == << in, forms, fresh, pieces, heads >>
G == Lines[in].g
Facts == TLCEval([k \in DOMAIN Lines |-> Context(Lines[k].g)])

\* forms[X]: sentential forms derived from X so far; eps is the empty sequence
Erase(r) == SelectSeq(r, LAMBDA x : x # G.eps)
StepsOf(f) ==
    UNION { { SubSeq(f, 1, i - 1) \o Erase(G.prods[k].r) \o SubSeq(f, i + 1, Len(f)) :
                k \in { j \in DOMAIN G.prods : G.prods[j].l = f[i] } } : i \in DOMAIN f }

\* what a piece (of up to M neighbouring symbols) of a form turns into, again in
\* pieces; and the same for the beginning of a form.  Replacing a symbol within
\* a piece of a form leaves a piece of another form, so whatever these show is
\* shown by some form, however long
M == 5
PiecesOf(f) == IF Len(f) <= M THEN {f} ELSE { SubSeq(f, i, i + M - 1) : i \in 1..(Len(f) - M + 1) }
HeadOf(f) == IF Len(f) <= M THEN f ELSE SubSeq(f, 1, M)

DInit == /\ in \in DOMAIN Lines
         /\ forms = [X \in NT(G) |-> { << X >> }]
         /\ fresh = forms
         /\ pieces = [all |-> { << X >> : X \in NT(G) }, new |-> { << X >> : X \in NT(G) }]
         /\ heads = [X \in NT(G) |-> [all |-> { << X >> }, new |-> { << X >> }]]

Grow(h, cut(_)) ==
    LET n == TLCEval(UNION { cut(f) : f \in UNION { StepsOf(h2) : h2 \in h.new } } \ h.all)
    IN [all |-> h.all \cup n, new |-> n]
HeadSet(f) == {HeadOf(f)}

\* one more derivation step everywhere
DNext == /\ ~(\A X \in NT(G) : fresh[X] = {} /\ heads[X].new = {}) \/ pieces.new # {}
         /\ pieces' = Grow(pieces, PiecesOf)
         /\ heads' = [X \in NT(G) |-> Grow(heads[X], HeadSet)]
         /\ LET new == TLCEval([X \in NT(G) |->
                        { f \in UNION { StepsOf(h) : h \in fresh[X] } : Len(f) <= L } \ forms[X]])
            IN fresh' = new /\ forms' = [X \in NT(G) |-> forms[X] \cup new[X]]
         /\ UNCHANGED in

Complete == pieces.new = {} /\ \A X \in NT(G) : fresh[X] = {} /\ heads[X].new = {}

\* what the forms show
ShownFirst(X) == { f[1] : f \in { h \in forms[X] \cup heads[X].all : h # << >> /\ h[1] \notin NT(G) } }
                 \cup (IF << >> \in forms[X] THEN {G.eps} ELSE {})
ShownFollow(A) == UNION { { f[i + 1] : i \in { j \in 1..(Len(f) - 1) : f[j] = A /\ f[j + 1] \notin NT(G) } } :
                            f \in UNION { forms[X] : X \in NT(G) } \cup pieces.all }

\* nothing is derived that the definitions do not allow
FirstSound  == \A X \in NT(G) : ShownFirst(X) \subseteq Facts[in].first[X]
FollowSound == \A X \in NT(G) : ShownFollow(X) \subseteq Facts[in].follow[X]
\* and everything they list is derived, within the bound
FirstWitnessed  == Complete => \A X \in NT(G) : ShownFirst(X) = Facts[in].first[X]
FollowWitnessed == Complete => \A X \in NT(G) : ShownFollow(X) = Facts[in].follow[X]
\* sentences: exactly the derived strings of tokens, up to length K
Sentences == Complete =>
    \A w \in UNION { [1..m -> Tok(G)] : m \in 1..K } :
        IsSentence(G, w) <=> (G.start \in NT(G) /\ w \in forms[G.start])
=============================================================================
