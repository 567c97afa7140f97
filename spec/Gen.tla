--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Draws grammars and inputs from the families and writes them down, for     *)
(* the model-checking configurations and for replay on the implementation.   *)
(* Environment: GEN_OUT file, GEN_KIND kind, GEN_N number of grammars.       *)
(***************************************************************************)
EXTENDS Families, Json, IOUtils, SequencesExt

N == atoi(IOEnv.GEN_N)
Kind == IOEnv.GEN_KIND
\* length of inputs
L == atoi(IOEnv.GEN_L)

\* inputs: every token sequence over the grammar's tokens up to length L
Inputs(g, hi) == SetToSeq(SeqsOf(Tok(g) \cup {Marker}, 1, hi))

Line(g) == [g |-> g, inputs |-> Inputs(g, L)]
Bare(g) == [g |-> g, inputs |-> << >>]

\* FIRST and FOLLOW sets of its own, or any others
SetsOf(f) == SetToSeq({ [s |-> X, v |-> SetToSeq(f[X])] : X \in DOMAIN f })
AnySets(g) ==
    LET c == TLCEval(Context(g))
        f == TLCEval([X \in DOMAIN c.first |->
               IF X \notin c.nt THEN {X}
               ELSE IF RandomElement(1..3) = 1 THEN c.first[X] ELSE RandomElement(SUBSET (c.tok \cup {Eps}))])
        w == TLCEval([X \in c.nt |->
               IF RandomElement(1..3) = 1 THEN c.follow[X] ELSE RandomElement(SUBSET c.tok)])
    IN [first |-> SetsOf(f), follow |-> SetsOf(w)]
Supplied(g) == [g |-> g, inputs |-> Inputs(g, L), given |-> AnySets(g)]

TwoNT == << "S", "A" >>
ThreeNT == << "S", "A", "B" >>
FourNT == << "S", "A", "B", "C" >>

\* exhaustive: one or two productions in all, two non-terminals, two tokens
TinyOuts == Outputs({"S", "A", "a", "b"}, 2)
TinyProds == [l : {"S", "A"}, r : TinyOuts]
Tiny == { [eps |-> Eps, start |-> "S", prods |-> ps] : ps \in SeqsOf(TinyProds, 1, 2) }

Lines ==
    CASE Kind = "parse" ->
          [k \in 1..N |-> Line(
              RandomParsable(IF k % 3 = 0 THEN TwoNT ELSE ThreeNT, {"a", "b"}, 2, 2 + (k % 2),
                             k % 2 = 0, k % 5 # 0))]
      [] Kind = "analysis" ->
          [k \in 1..N |-> Bare(RandomGrammarOver(IF k % 3 = 0 THEN ThreeNT ELSE FourNT,
                             IF k % 2 = 0 THEN {"a", "b"} ELSE {"a", "b", "c"}, 3, 3, FALSE))]
      [] Kind = "small" ->
          [k \in 1..N |-> Bare(RandomGrammarOver(IF k % 2 = 0 THEN TwoNT ELSE ThreeNT, {"a", "b"}, 2, 2, FALSE))]
      [] Kind = "ll1" ->
          [k \in 1..N |-> Line(RandomLL1(IF k % 3 = 0 THEN TwoNT ELSE ThreeNT, {"a", "b"}, 2, 2, k % 4 # 0))]
      [] Kind = "supplied" ->
          [k \in 1..N |-> Supplied(TLCEval(
              RandomParsable(IF k % 3 = 0 THEN TwoNT ELSE ThreeNT, {"a", "b"}, 2, 2 + (k % 2),
                             k % 2 = 0, k % 5 # 0)))]
      [] Kind = "tiny" ->
          LET s == SetToSeq(Tiny) IN [k \in 1..Len(s) |-> Bare(s[k])]

ASSUME ndJsonSerialize(IOEnv.GEN_OUT, Lines)

VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
