------------------------------ MODULE Predictive ------------------------------
(***************************************************************************)
(* The textbook pushdown machine for LL(1) grammars: a stack of symbols, the  *)
(* candidate of the non-terminal on top chosen by the next token.  For LL(1)  *)
(* grammars it accepts exactly the sentences and stops at the first token     *)
(* that cannot be right; TLC checks this against Language on every input of   *)
(* drawn grammars (MCPredictive), which makes it an oracle for inputs that    *)
(* are too long for the span computation.                                     *)
(***************************************************************************)
EXTENDS Match

\* one step from stack m.st (top first) at position m.at; m.end: "" while it goes
\* on, "yes" when the stack was used up, "no" when it is stuck
Step(c, toks, m) ==
    IF m.end # "" THEN m
    ELSE IF m.st = << >> THEN [m EXCEPT !.end = "yes"]
    ELSE LET X == Head(m.st) IN
         IF X = c.g.eps THEN [m EXCEPT !.st = Tail(@)]
         ELSE IF X \in c.nt
         THEN LET cs == Cands(c, toks, X, m.at) IN
              IF cs = << >> THEN [m EXCEPT !.end = "no"]
              ELSE [m EXCEPT !.st = c.g.prods[cs[1]].r \o Tail(@)]
         ELSE IF m.at < Len(toks) /\ toks[m.at + 1] = X THEN [m EXCEPT !.st = Tail(@), !.at = @ + 1]
         ELSE [m EXCEPT !.end = "no"]

\* many steps, 128 at a time (TLC is slow when its own stack is deep)
RECURSIVE Steps(_, _, _, _), Drive(_, _, _)
Steps(c, toks, m, n) == IF n = 0 THEN m ELSE Steps(c, toks, TLCEval(Step(c, toks, m)), n - 1)
Drive(c, toks, m) == IF m.end # "" THEN [ok |-> m.end = "yes", at |-> m.at]
                     ELSE Drive(c, toks, TLCEval(Steps(c, toks, m, 128)))

PredictiveRun(c, toks) == Drive(c, toks, [st |-> << c.g.start >>, at |-> 0, end |-> ""])

\* inputs up to this length are judged by Language itself
SpanLimit == 20

\* toks is a sentence (for grammars with an end marker)
AcceptsAll(c, toks) ==
    IF Len(toks) <= SpanLimit THEN IsSentence(c.g, toks)
    ELSE LET m == PredictiveRun(c, toks) IN m.ok /\ m.at = Len(toks)

\* p is where a failing parse of toks must stop
LocatedAt(c, toks, p) ==
    IF Len(toks) <= SpanLimit
    THEN /\ p <= Len(toks)
         /\ ViablePrefix(c.g, SubSeq(toks, 1, p))
         /\ p < Len(toks) => ~ViablePrefix(c.g, SubSeq(toks, 1, p + 1))
    ELSE LET m == PredictiveRun(c, toks) IN ~m.ok /\ m.at = p
=============================================================================
