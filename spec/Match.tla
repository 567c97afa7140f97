-------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* What a parse must produce, stated as a function (big-step), without a    *)
(* solver: ordered choice over the candidates of a symbol, and depth-first   *)
(* search over the alternatives of the symbols of one production (nearest    *)
(* earlier symbol first).  Parser.tla is the same thing as a small-step      *)
(* machine; TLC checks that they agree.                                      *)
(*                                                                          *)
(* Trees are written in preorder: a sequence of nodes                        *)
(*    [s |-> symbol, x |-> lexeme (-1: none), c |-> symbols of the children],  *)
(* which determines the tree.  The tokens of an input are two sequences,      *)
(* toks (types) and lex (lexemes).                                            *)
(***************************************************************************)
EXTENDS Language

NoLex == 0 - 1
Leaf(s, x) == << [s |-> s, x |-> x, c |-> << >>] >>
\* the concatenation of ts[k], ..., ts[m], halved again and again: TLC evaluates
\* deep recursion in time quadratic in its depth
RECURSIVE ConcatOf(_, _, _)
ConcatOf(ts, k, m) ==
    IF k > m THEN << >> ELSE IF k = m THEN ts[k]
    ELSE LET h == (k + m) \div 2 IN ConcatOf(ts, k, h) \o ConcatOf(ts, h + 1, m)
Concat(ts, k) == ConcatOf(ts, k, Len(ts))
Node(A, kids) ==
    << [s |-> A, x |-> NoLex, c |-> [k \in 1..Len(kids) |-> kids[k][1].s]] >> \o Concat(kids, 1)

\* ---- failure reports (uniform records)
\*   report = [s |-> symbol, ps |-> Seq(entry)]
\*   entry  = [f |-> report, ok |-> Seq(parsed), pe |-> Seq(symbol)]
\*   parsed = [k |-> "ok", t |-> tree, fx |-> << >>] | [k |-> "fix", t |-> << >>, fx |-> <<fixed>>]
ParsedTree(t) == [k |-> "ok", t |-> t, fx |-> << >>]
ParsedFix(fx) == [k |-> "fix", t |-> << >>, fx |-> <<fx>>]
Report(A, ps) == [s |-> A, ps |-> ps]
Entry(r, done, f) ==
    [f |-> f, ok |-> done, pe |-> SubSeq(r, Len(done) + 2, Len(r))]

\* ---- matching
\* First(c, .., A, i, cs): the first candidate of cs that matches A at i
\*    [ok |-> TRUE,  t |-> tree, e |-> end, rest |-> untried candidates, ps |-> entries of the failed ones]
\*    [ok |-> FALSE, t |-> <<>>, e |-> i,   rest |-> <<>>,               ps |-> entries of all of them]
\* SibFrom(.., r, k, i, kids): match r[k..] at i; kids are the trees of r[1..k-1]
\*    [ok |-> TRUE,  kids, e, entry |-> <<>>]
\*    [ok |-> FALSE, kids, e, entry |-> <<entry>>]   entry of the last attempt
\*    terminals have a single way to match, and so a run of terminals that are
\*    next in the input is matched at once (for TLC, see ConcatOf)
\* Over(.., r, k, kids, i, m): r[k] has just been matched as m (or not); go on
\*    with r[k+1..], and on failure come back for the next candidate of r[k]
RECURSIVE FirstMatch(_, _, _, _, _, _, _), SibFrom(_, _, _, _, _, _, _), Over(_, _, _, _, _, _, _, _, _)

SymMatch(c, toks, lex, X, i) ==
    IF X = c.g.eps
    THEN [ok |-> TRUE, t |-> Leaf(X, NoLex), e |-> i, rest |-> << >>, ps |-> << >>]
    ELSE IF X \in c.nt THEN FirstMatch(c, toks, lex, X, i, Cands(c, toks, X, i), << >>)
    ELSE IF i < Len(toks) /\ toks[i + 1] = X
    THEN [ok |-> TRUE, t |-> Leaf(X, lex[i + 1]), e |-> i + 1, rest |-> << >>, ps |-> << >>]
    ELSE [ok |-> FALSE, t |-> << >>, e |-> i, rest |-> << >>, ps |-> << >>]

FirstMatch(c, toks, lex, A, i, cs, ps) ==
    IF cs = << >> THEN [ok |-> FALSE, t |-> << >>, e |-> i, rest |-> << >>, ps |-> ps]
    ELSE LET o == TLCEval(SibFrom(c, toks, lex, c.g.prods[Head(cs)].r, 1, i, << >>))
         IN IF o.ok
            THEN [ok |-> TRUE, t |-> Node(A, o.kids), e |-> o.e, rest |-> Tail(cs), ps |-> ps]
            ELSE FirstMatch(c, toks, lex, A, i, Tail(cs), ps \o o.entry)

\* the end of the run of terminals from r[k] on that are next in the input
RunEnd(c, toks, r, k, i) ==
    LET Stop(j) == r[j] = c.g.eps \/ r[j] \in c.nt \/ i + j - k >= Len(toks) \/ toks[i + j - k + 1] # r[j]
    IN IF \E j \in k..Len(r) : Stop(j) THEN CHOOSE j \in k..Len(r) : Stop(j) /\ \A h \in k..(j - 1) : ~Stop(h)
       ELSE Len(r) + 1

SibFrom(c, toks, lex, r, k, i, kids) ==
    IF k > Len(r) THEN [ok |-> TRUE, kids |-> kids, e |-> i, entry |-> << >>]
    ELSE IF r[k] # c.g.eps /\ r[k] \notin c.nt /\ i < Len(toks) /\ toks[i + 1] = r[k]
    THEN LET z == TLCEval(RunEnd(c, toks, r, k, i)) IN
         SibFrom(c, toks, lex, r, z, i + z - k,
                 TLCEval(kids \o [j \in 1..(z - k) |-> Leaf(r[k + j - 1], lex[i + j])]))
    ELSE LET m == TLCEval(SymMatch(c, toks, lex, r[k], i))
         IN Over(c, toks, lex, r, k, kids, i, m,
                 << Entry(r, [j \in DOMAIN kids |-> ParsedTree(kids[j])], Report(r[k], m.ps)) >>)

Over(c, toks, lex, r, k, kids, i, m, last) ==
    IF ~m.ok THEN [ok |-> FALSE, kids |-> << >>, e |-> i, entry |-> last]
    ELSE LET o == TLCEval(SibFrom(c, toks, lex, r, k + 1, m.e, Append(kids, m.t)))
         IN IF o.ok THEN o
            ELSE Over(c, toks, lex, r, k, kids, i,
                      TLCEval(FirstMatch(c, toks, lex, r[k], i, m.rest, << >>)), o.entry)

\* the whole parse
ParseResult(c, toks, lex) ==
    LET A == c.g.start
        m == TLCEval(FirstMatch(c, toks, lex, A, 0, Cands(c, toks, A, 0), << >>))
    IN IF m.ok THEN [k |-> "ok", tree |-> m.t, fs |-> Report(A, << >>)]
               ELSE [k |-> "err", tree |-> << >>, fs |-> Report(A, m.ps)]
=============================================================================
