------------------------------ MODULE MCShared ------------------------------
(***************************************************************************)
(* Two parses at the same time over one grammar, interleaved in every way:    *)
(* by threads, or one in the middle of the other (from its token iterator or  *)
(* from its solver).  Nothing is shared but the grammar and its table, which  *)
(* never change, and so each parse ends as it would alone.                    *)
(* Environment: JOBS file from Gen, PAIRS pairs of inputs per grammar.        *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.JOBS)
Pairs == atoi(IOEnv.PAIRS)
Ctxs == TLCEval([k \in DOMAIN Lines |-> Context(Lines[k].g)])

SJobOf(j) ==
    LET t == Lines[j[1]].inputs[j[2]]
    IN [c |-> j[1], toks |-> t, lex |-> [i \in DOMAIN t |-> i], solver |-> j[3]]
SCtx(k) == Ctxs[k]
SAnswers(j, l) == { [ans |-> "no", to |-> 0, parts |-> << >>] }

VARIABLES job1, mode1, stack1, ret1, log1, job2, mode2, stack2, ret2, log2
v1 == << job1, mode1, stack1, ret1, log1 >>
v2 == << job2, mode2, stack2, ret2, log2 >>

A == INSTANCE Parser WITH JobOf <- SJobOf, Ctx <- SCtx, Answers <- SAnswers,
        job <- job1, mode <- mode1, stack <- stack1, ret <- ret1, log <- log1
B == INSTANCE Parser WITH JobOf <- SJobOf, Ctx <- SCtx, Answers <- SAnswers,
        job <- job2, mode <- mode2, stack <- stack2, ret <- ret2, log <- log2

SInit == \E k \in DOMAIN Lines : \E p \in 1..Pairs :
            LET n == Len(Lines[k].inputs)
                m == ((p * 7) % n) + 1
                q == ((p * 11 + k) % n) + 1
            IN A!InitWith(<< k, m, p % 2 = 0 >>) /\ B!InitWith(<< k, q, p % 3 = 0 >>)

SDone == mode1 = "done" /\ mode2 = "done" /\ UNCHANGED << v1, v2 >>
SNext == (A!Next /\ UNCHANGED v2) \/ (B!Next /\ UNCHANGED v1) \/ SDone

\* alone: what the definition says
Alone(j, r) == LET m == ParseResult(SCtx(SJobOf(j).c), SJobOf(j).toks, SJobOf(j).lex) IN
    /\ r.k = m.k
    /\ m.k = "ok" => r.tree = m.tree
    /\ m.k = "err" => r.fs = m.fs
AsAlone == /\ mode1 = "done" => Alone(job1, A!Result)
           /\ mode2 = "done" => Alone(job2, B!Result)
=============================================================================
