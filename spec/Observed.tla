------------------------------ MODULE Observed ------------------------------
(***************************************************************************)
(* Contexts built from the prediction table that the library itself showed,  *)
(* so that what the parser does with its candidates is judged apart from      *)
(* whether the candidates are the right ones.                                 *)
(* An observation o has o.table = Seq([s, a, ps |-> Seq([l, r])]), the         *)
(* non-empty cells.                                                           *)
(***************************************************************************)
EXTENDS Props

Known(g, s, p) == p.l = s /\ \E k \in DOMAIN g.prods : g.prods[k].l = p.l /\ g.prods[k].r = p.r

TableUsable(g, obs) ==
    /\ obs # << >>
    /\ obs[1].build = "ok" /\ obs[1].tb = "ok"
    /\ \A n \in DOMAIN obs[1].table : \A m \in DOMAIN obs[1].table[n].ps :
          Known(g, obs[1].table[n].s, obs[1].table[n].ps[m])

CellOf(o, A, a) ==
    IF \E n \in DOMAIN o.table : o.table[n].s = A /\ o.table[n].a = a
    THEN o.table[CHOOSE n \in DOMAIN o.table : o.table[n].s = A /\ o.table[n].a = a].ps
    ELSE << >>

IndexOf(g, p) == CHOOSE k \in DOMAIN g.prods : g.prods[k].l = p.l /\ g.prods[k].r = p.r

\* candidates as listed by the table
AsListed(g, obs) ==
    IF TableUsable(g, obs)
    THEN Skeleton(g, LAMBDA A, a : LET ps == CellOf(obs[1], A, a) IN
                                   [k \in 1..Len(ps) |-> IndexOf(g, ps[k])])
    ELSE Context(g)

\* the candidates of the table, in declaration order
AsDeclared(g, obs) ==
    IF TableUsable(g, obs)
    THEN Skeleton(g, LAMBDA A, a : LET ps == RangeOf(CellOf(obs[1], A, a)) IN
                                   SelectSeq(ProdIdx(g, A), LAMBDA k : g.prods[k] \in ps))
    ELSE Context(g)
\* a deep report is recorded in preorder: node n is the report of a symbol with
\* n.n entries, and has the parsed and pending symbols of the entry it failed in
RECURSIVE Unflat(_, _), UnflatEntries(_, _, _, _)
UnflatEntries(f, left, at, done) ==
    IF left = 0 THEN [v |-> done, at |-> at]
    ELSE LET u == TLCEval(Unflat(f, at))
         IN UnflatEntries(f, left - 1, u.at, Append(done, [f |-> u.v, ok |-> f[at].ok, pe |-> f[at].pe]))
Unflat(f, at) ==
    LET u == TLCEval(UnflatEntries(f, f[at].n, at + 1, << >>))
    IN [v |-> Report(f[at].s, u.v), at |-> u.at]

WithReport(res) ==
    IF res.flat = << >> THEN res ELSE [res EXCEPT !.fs = Unflat(res.flat, 1).v]
=============================================================================
