------------------------------- MODULE MCWork -------------------------------
(***************************************************************************)
(* The parser machine with a step counter: for LL(1) grammars a parse takes   *)
(* a number of steps proportional to the size of its result, a parse tree or  *)
(* a failure report; with a solver this holds for the inputs that parse.      *)
(* MCWorkSize: and the size of the result is proportional to the input.       *)
(***************************************************************************)
EXTENDS MCParser, Work

VARIABLE steps

WInit == MCInit /\ steps = 0
WNext == (Next /\ steps' = steps + 1) \/ (Finished /\ UNCHANGED steps)

ResultSize == Len(Result.tree) + ReportSize(Result.fs)
Proportional ==
    (Done /\ IsLL1(C) /\ Result.k \in (IF J.solver THEN {"ok"} ELSE {"ok", "err"})) =>
        steps <= 6 * ResultSize + 4

\* C22: for all grammars, the steps are those of the search (no fix was made)
AsSearched ==
    (Done /\ Result.k # "fix" /\ \A n \in DOMAIN log : log[n].ans = "no") =>
        LET n == Effort(C, J.toks, J.solver) IN n <= steps /\ steps <= 4 * n + 4

\* without left recursion no more than |NT| expansions are stacked up before a
\* token is read, or without reading one
MaxRhs(g) == CHOOSE n \in { Len(g.prods[k].r) : k \in DOMAIN g.prods } :
                \A k \in DOMAIN g.prods : Len(g.prods[k].r) <= n
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
PerToken(c) == 2 * Power(MaxRhs(c.g) + 1, Cardinality(c.nt) + 1)
SizeBounded == (Done /\ IsLL1(C) /\ Result.k = "ok") => Len(Result.tree) <= PerToken(C) * (Len(J.toks) + 1)
=============================================================================
