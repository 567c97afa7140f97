-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* How much there is to do: the number of attempts (a symbol at a position,   *)
(* a candidate of a symbol) that ordered choice with nearest-first            *)
(* re-derivation makes on an input, without a solver or with one that          *)
(* declines everything (s).  The same recursion as Match, but for counting;     *)
(* TLC checks it against the parser machine (MCWork).                          *)
(***************************************************************************)
EXTENDS Props

\* [ok, e: end, rest: untried candidates, n: attempts so far]
\* s: with a solver, and every enclosing symbol has a single candidate
RECURSIVE WFirst(_, _, _, _, _, _, _, _), WSib(_, _, _, _, _, _, _), WOver(_, _, _, _, _, _, _)

\* a symbol with these candidates: without fixes first
WCands(c, toks, A, i, cs, s, n) ==
    IF ~s THEN WFirst(c, toks, A, i, cs, FALSE, FALSE, n)
    ELSE LET m == TLCEval(WFirst(c, toks, A, i, cs, FALSE, FALSE, n)) IN
         IF m.ok THEN m ELSE WFirst(c, toks, A, i, cs, s, Len(cs) = 1, m.n)

WSym(c, toks, X, i, s, n) ==
    IF X \in c.nt THEN WCands(c, toks, X, i, Cands(c, toks, X, i), s, n + 1)
    ELSE IF X = c.g.eps THEN [ok |-> TRUE, e |-> i, rest |-> << >>, n |-> n + 1]
    ELSE IF i < Len(toks) /\ toks[i + 1] = X THEN [ok |-> TRUE, e |-> i + 1, rest |-> << >>, n |-> n + 1]
    ELSE [ok |-> FALSE, e |-> i, rest |-> << >>, n |-> n + 1]

WFirst(c, toks, A, i, cs, s, one, n) ==
    IF cs = << >> THEN [ok |-> FALSE, e |-> i, rest |-> << >>, n |-> n]
    ELSE LET o == TLCEval(WSib(c, toks, c.g.prods[Head(cs)].r, 1, i, one, n + 1))
         IN IF o.ok THEN [ok |-> TRUE, e |-> o.e, rest |-> Tail(cs), n |-> o.n]
            ELSE WFirst(c, toks, A, i, Tail(cs), s, one, o.n)

WSib(c, toks, r, k, i, s, n) ==
    IF k > Len(r) THEN [ok |-> TRUE, e |-> i, n |-> n]
    ELSE WOver(c, toks, r, k, i, s, TLCEval(WSym(c, toks, r[k], i, s, n)))

WOver(c, toks, r, k, i, s, m) ==
    IF ~m.ok THEN [ok |-> FALSE, e |-> i, n |-> m.n]
    ELSE LET o == TLCEval(WSib(c, toks, r, k + 1, m.e, s, m.n))
         IN IF o.ok THEN o
            ELSE WOver(c, toks, r, k, i, s,
                       TLCEval(WFirst(c, toks, r[k], i, m.rest, FALSE, FALSE, o.n + 1)))

Effort(c, toks, s) == WCands(c, toks, c.g.start, 0, Cands(c, toks, c.g.start, 0), s, 1).n
=============================================================================
