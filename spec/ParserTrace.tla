----------------------------- MODULE ParserTrace -----------------------------
(***************************************************************************)
(* Trace validation: the parser machine is run along recorded parses.  What   *)
(* the record tells (each consultation of the solver with its arguments, the  *)
(* answers, the result) constrains the machine, step by step; the machine     *)
(* supplies everything in between.                                            *)
(* Environment: REC file of records (ndjson).                                 *)
(***************************************************************************)
EXTENDS Parser, Observed, Json, IOUtils

VARIABLE step      \* number of steps taken

Recs == ndJsonDeserialize(IOEnv.REC)
Ctxs == TLCEval([k \in DOMAIN Recs |-> AsListed(Recs[k].g, Recs[k].obs)])

\* a job is << record, list of results, run >>
Recorded(j) == WithReport(Recs[j[1]].res[j[2]][j[3]])
TJobOf(j) ==
    LET r == Recs[j[1]] IN
    [c |-> j[1], toks |-> r.runs[j[3]].toks, lex |-> r.runs[j[3]].lex,
     solver |-> r.parsers[r.runs[j[3]].p + 1] = "solver"]
TCtx(k) == Ctxs[k]

\* the answers are the recorded ones; beyond them the solver declines
TAnswers(j, l) ==
    LET cs == Recorded(j).calls IN
    IF Len(l) <= Len(cs)
    THEN { [ans |-> cs[Len(l)].ans, to |-> cs[Len(l)].to, parts |-> cs[Len(l)].parts] }
    ELSE { [ans |-> "no", to |-> 0, parts |-> << >>] }

TInit == \E k \in DOMAIN Recs : \E v \in DOMAIN Recs[k].res : \E n \in DOMAIN Recs[k].res[v] :
            /\ Recs[k].runs[n].toks # << >>
            /\ ~ \E x \in DOMAIN Recs[k].long : Recs[k].long[x] = n
            /\ Recs[k].parsers[Recs[k].runs[n].p + 1] = "solver"
            /\ InitWith(<< k, v, n >>)
            /\ step = 0
TNext == Next /\ step' = step + 1

\* With every answer given the machine is deterministic, so a state along the
\* way of a record is known by its number (states of long parses are large).
TView == << job, step >>

\* ------------------------------------------------------------ what is checked
Rec == Recorded(job)
Fixed1 == \E n \in DOMAIN log : log[n].ans = "fix"

\* the n-th consultation is the n-th recorded one
SameCall(n) ==
    /\ n <= Len(Rec.calls)
    /\ Rec.calls[n].kind = log[n].kind
    /\ Rec.calls[n].pos = log[n].pos
    /\ Rec.calls[n].ps = log[n].ps
    /\ Rec.calls[n].toks = J.toks
    /\ Rec.calls[n].lex = J.lex

\* C16: consulted exactly as the machine consults
Consulted ==
    /\ mode = "ask" => SameCall(Len(log))
    /\ mode = "done" => Len(log) = Len(Rec.calls)

\* C17: once a fix is used, everything from there on is as the machine does it,
\* and a result is fixed if and only if the machine's is
FixUsed ==
    /\ mode = "ask" => (Fixed1 => SameCall(Len(log)))
    /\ mode = "done" =>
         /\ Fixed1 => Len(log) = Len(Rec.calls) /\ Rec.k = Result.k /\ Rec.fs = Result.fs /\ Rec.fx = Result.fx
         /\ (Rec.k = "fix") = (Result.k = "fix")
         /\ Rec.k = "fix" => Rec.fx = Result.fx

\* the complete result, whatever it is
SameResult == mode = "done" =>
    /\ Rec.k = Result.k
    /\ Rec.tree = Result.tree
    /\ Rec.fx = Result.fx
    /\ Result.k = "err" => Rec.fs = Result.fs
=============================================================================
