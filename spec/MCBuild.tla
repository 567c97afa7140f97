------------------------------- MODULE MCBuild -------------------------------
(* every list of up to MAXP productions over two inputs and the empty word    *)
EXTENDS GrammarBuild, IOUtils, SequencesExt

MaxP == atoi(IOEnv.MAXP)
Syms == {"A", "a", "e"}
Prods == [l : {"S", "A", "e"}, r : UNION { [1..m -> Syms] : m \in 0..2 }]
Lists == TLCEval(SetToSeq(UNION { [1..m -> Prods] : m \in 0..MaxP }))
MCGiven(k) == [eps |-> "e", start |-> "S", prods |-> Lists[k]]
MCInit == BInit(DOMAIN Lists)
Ended == BEnd /\ UNCHANGED bvars
MCNext == BNext \/ Ended
MCSpec == MCInit /\ [][MCNext]_bvars /\ WF_bvars(BNext)
=============================================================================
