------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser as a state machine: an explicit stack of frames, one action   *)
(* per decision.  The environment is the syntax error solver, whose answer   *)
(* to each consultation is chosen nondeterministically (or, when a recorded  *)
(* run is validated, taken from the record).                                 *)
(*                                                                          *)
(* Frames                                                                    *)
(*  "sym": a symbol A to be derived at position i                            *)
(*     todo   untried candidates (production indices)                        *)
(*     cs     all candidates this frame was given                            *)
(*     sp     every enclosing symbol had a single candidate, and so fixes    *)
(*            are allowed here                                               *)
(*     pass   1: attempt without fixes (solver present and sp), 2: otherwise *)
(*     ps     failure entries so far                                         *)
(*     again  this frame re-derives an already matched symbol (backtracking) *)
(*  "prod": production p being matched, from position i                      *)
(*     done   states of the symbols matched so far                           *)
(*     pos    current position,  sp as above for the symbols of p            *)
(*     back   backtracking;  f: report of the symbol that failed             *)
(*     kept   parsed symbols already given up while backtracking (reversed)  *)
(*                                                                          *)
(* ret is the value returned by the frame just popped.                       *)
(***************************************************************************)
EXTENDS Match

CONSTANTS JobOf(_),      \* job index -> [c |-> grammar index, toks, lex, solver |-> BOOLEAN]
          Ctx(_),        \* grammar index -> its context (see CFG!Context)
          Answers(_, _)  \* answers the solver may give: job index, log -> set of answers

VARIABLES job,    \* index of what is parsed; constant
          mode,   \* "start" | "run" | "ask" | "done"
          stack,  \* Seq of frames, top last
          ret,    \* returned value
          log     \* consultations so far, with their answers

vars == << job, mode, stack, ret, log >>

\* ------------------------------------------------------------------ values
Fixed(A, parts) == [s |-> A, parts |-> parts]
PartTree(t) == [k |-> "ok",  t |-> t,      fx |-> << >>, st |-> << >>, ss |-> << >>]
PartFix(x)  == [k |-> "fix", t |-> << >>,  fx |-> <<x>>, st |-> << >>, ss |-> << >>]
PartGap(a, b) == [k |-> "gap", t |-> << >>, fx |-> << >>, st |-> a,    ss |-> b]

NoFix == Fixed("", << >>)
NoRep == Report("", << >>)
\* one shape for all returned values; unused fields hold neutral values
Ret(k) == [k |-> k, t |-> << >>, e |-> 0, rest |-> << >>, parts |-> << >>,
           fx |-> NoFix, f |-> NoRep, entry |-> << >>]
None == Ret("none")

\* state of a matched symbol
StOk(t, from, to, rest, nt) ==
    [k |-> "ok", t |-> t, fx |-> NoFix, from |-> from, to |-> to, rest |-> rest, nt |-> nt]
StFix(fx, from, to) ==
    [k |-> "fix", t |-> << >>, fx |-> fx, from |-> from, to |-> to, rest |-> << >>, nt |-> FALSE]

ParsedOf(s) == IF s.k = "ok" THEN ParsedTree(s.t) ELSE ParsedFix(s.fx)
PartOf(s)   == IF s.k = "ok" THEN PartTree(s.t)   ELSE PartFix(s.fx)

\* ------------------------------------------------------------------ frames
J == JobOf(job)
C == Ctx(J.c)
Top == stack[Len(stack)]
Below == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == Append(Below, f)

SymFrame(A, i, cs, sp, again) ==
    [fr |-> "sym", A |-> A, i |-> i, todo |-> cs, cs |-> cs, sp |-> sp,
     pass |-> IF J.solver /\ sp THEN 1 ELSE 2, ps |-> << >>, again |-> again]
ProdFrame(p, i, sp) ==
    [fr |-> "prod", p |-> p, i |-> i, pos |-> i, sp |-> sp, done |-> << >>,
     back |-> FALSE, f |-> NoRep, kept |-> << >>]

SingleChild(f) == f.pass = 2 /\ f.sp /\ Len(f.cs) = 1
Rhs(f) == C.g.prods[f.p].r
Running(kind) == mode = "run" /\ stack # << >> /\ Top.fr = kind

\* ----------------------------------------------------------------- actions
Begin ==
    /\ mode = "start"
    /\ stack' = << SymFrame(C.g.start, 0, Cands(C, J.toks, C.g.start, 0), TRUE, FALSE) >>
    /\ mode' = "run"
    /\ UNCHANGED << job, ret, log >>

\* ---- symbol frames
TryCandidate ==
    /\ Running("sym") /\ ret.k = "none" /\ Top.todo # << >>
    /\ stack' = Append(SetTop([Top EXCEPT !.todo = Tail(@)]),
                       ProdFrame(Head(Top.todo), Top.i, SingleChild(Top)))
    /\ UNCHANGED << job, mode, ret, log >>

CandidateMatched ==
    /\ Running("sym") /\ ret.k = "pok"
    /\ stack' = Below
    /\ ret' = [Ret("ok") EXCEPT !.t = ret.t, !.e = ret.e, !.rest = Top.todo]
    /\ UNCHANGED << job, mode, log >>

CandidateFixed ==
    /\ Running("sym") /\ ret.k = "pfix"
    /\ stack' = Below
    /\ ret' = [Ret("fix") EXCEPT !.fx = Fixed(Top.A, ret.parts), !.e = ret.e]
    /\ UNCHANGED << job, mode, log >>

CandidateFailed ==
    /\ Running("sym") /\ ret.k = "perr"
    /\ stack' = SetTop([Top EXCEPT !.ps = @ \o ret.entry])
    /\ ret' = None
    /\ UNCHANGED << job, mode, log >>

AllFailedWithoutFixes ==
    /\ Running("sym") /\ ret.k = "none" /\ Top.todo = << >> /\ Top.pass = 1
    /\ stack' = SetTop([Top EXCEPT !.pass = 2, !.todo = Top.cs, !.ps = << >>])
    /\ UNCHANGED << job, mode, ret, log >>

SymbolFailed ==
    /\ Running("sym") /\ ret.k = "none" /\ Top.todo = << >> /\ Top.pass = 2
    /\ ~(J.solver /\ Top.sp)
    /\ stack' = Below
    /\ ret' = [Ret("err") EXCEPT !.f = Report(Top.A, Top.ps)]
    /\ UNCHANGED << job, mode, log >>

Consult ==
    /\ Running("sym") /\ ret.k = "none" /\ Top.todo = << >> /\ Top.pass = 2
    /\ J.solver /\ Top.sp
    /\ mode' = "ask"
    /\ log' = Append(log, [kind |-> IF Len(Top.cs) = 1 THEN "one" ELSE "many",
                           pos |-> Top.i, ps |-> Top.ps,
                           ans |-> "no", to |-> 0, parts |-> << >>])
    /\ UNCHANGED << job, stack, ret >>

SolverDeclines ==
    /\ mode = "ask" /\ [ans |-> "no", to |-> 0, parts |-> << >>] \in Answers(job, log)
    /\ mode' = "run"
    /\ stack' = Below
    /\ ret' = [Ret("err") EXCEPT !.f = Report(Top.A, Top.ps)]
    /\ UNCHANGED << job, log >>

SolverFixes ==
    /\ mode = "ask"
    /\ \E a \in Answers(job, log) :
         /\ a.ans = "fix"
         /\ log' = [log EXCEPT ![Len(log)].ans = "fix", ![Len(log)].to = a.to,
                               ![Len(log)].parts = a.parts]
         /\ ret' = [Ret("fix") EXCEPT !.fx = Fixed(Top.A, a.parts), !.e = a.to]
    /\ mode' = "run"
    /\ stack' = Below
    /\ UNCHANGED job

\* ---- production frames, forward
Forward == Running("prod") /\ ~Top.back
NextSym == Rhs(Top)[Len(Top.done) + 1]
More == Len(Top.done) < Len(Rhs(Top))

MatchEmpty ==
    /\ Forward /\ ret.k = "none" /\ More /\ NextSym = C.g.eps
    /\ stack' = SetTop([Top EXCEPT !.done =
                   Append(@, StOk(Leaf(NextSym, NoLex), Top.pos, Top.pos, << >>, FALSE))])
    /\ UNCHANGED << job, mode, ret, log >>

IsTerminal(X) == X # C.g.eps /\ X \notin C.nt
TokenHere(X) == Top.pos < Len(J.toks) /\ J.toks[Top.pos + 1] = X

MatchToken ==
    /\ Forward /\ ret.k = "none" /\ More /\ IsTerminal(NextSym) /\ TokenHere(NextSym)
    /\ stack' = SetTop([Top EXCEPT !.pos = @ + 1, !.done =
                   Append(@, StOk(Leaf(NextSym, J.lex[Top.pos + 1]), Top.pos, Top.pos + 1, << >>, FALSE))])
    /\ UNCHANGED << job, mode, ret, log >>

TokenMismatch ==
    /\ Forward /\ ret.k = "none" /\ More /\ IsTerminal(NextSym) /\ ~TokenHere(NextSym)
    /\ stack' = SetTop([Top EXCEPT !.back = TRUE, !.f = Report(NextSym, << >>)])
    /\ UNCHANGED << job, mode, ret, log >>

Descend ==
    /\ Forward /\ ret.k = "none" /\ More /\ NextSym \in C.nt
    /\ stack' = Append(stack, SymFrame(NextSym, Top.pos, Cands(C, J.toks, NextSym, Top.pos),
                                       Top.sp, FALSE))
    /\ UNCHANGED << job, mode, ret, log >>

SymbolMatched ==
    /\ Forward /\ ret.k = "ok"
    /\ stack' = SetTop([Top EXCEPT !.pos = ret.e, !.done =
                   Append(@, StOk(ret.t, Top.pos, ret.e, ret.rest, TRUE))])
    /\ ret' = None
    /\ UNCHANGED << job, mode, log >>

SymbolFixed ==
    /\ Forward /\ ret.k = "fix"
    /\ stack' = SetTop([Top EXCEPT !.pos = ret.e, !.done = Append(@, StFix(ret.fx, Top.pos, ret.e))])
    /\ ret' = None
    /\ UNCHANGED << job, mode, log >>

SymbolNotMatched ==
    /\ Forward /\ ret.k = "err"
    /\ stack' = SetTop([Top EXCEPT !.back = TRUE, !.f = ret.f])
    /\ ret' = None
    /\ UNCHANGED << job, mode, log >>

ProductionMatched ==
    /\ Forward /\ ret.k = "none" /\ ~More
    /\ \A k \in DOMAIN Top.done : Top.done[k].k = "ok"
    /\ stack' = Below
    /\ ret' = [Ret("pok") EXCEPT !.e = Top.pos,
                 !.t = Node(C.g.prods[Top.p].l, [k \in DOMAIN Top.done |-> Top.done[k].t])]
    /\ UNCHANGED << job, mode, log >>

ProductionFixed ==
    /\ Forward /\ ret.k = "none" /\ ~More
    /\ \E k \in DOMAIN Top.done : Top.done[k].k = "fix"
    /\ stack' = Below
    /\ ret' = [Ret("pfix") EXCEPT !.e = Top.pos,
                 !.parts = [k \in DOMAIN Top.done |-> PartOf(Top.done[k])]]
    /\ UNCHANGED << job, mode, log >>

\* ---- production frames, backtracking
Backward == Running("prod") /\ Top.back
LastDone == Top.done[Len(Top.done)]
DropLast(f) == [f EXCEPT !.done = SubSeq(@, 1, Len(@) - 1), !.kept = Append(@, ParsedOf(LastDone))]

\* a token, an empty word or a fixed symbol has no other way to match
GiveUpState ==
    /\ Backward /\ ret.k = "none" /\ Top.done # << >> /\ ~LastDone.nt
    /\ stack' = SetTop(DropLast(Top))
    /\ UNCHANGED << job, mode, ret, log >>

Rederive ==
    /\ Backward /\ ret.k = "none" /\ Top.done # << >> /\ LastDone.nt
    /\ stack' = Append(stack, SymFrame(LastDone.t[1].s, LastDone.from, LastDone.rest, FALSE, TRUE))
    /\ UNCHANGED << job, mode, ret, log >>

RederiveMatched ==
    /\ Backward /\ ret.k = "ok"
    /\ stack' = SetTop([Top EXCEPT !.back = FALSE, !.f = NoRep, !.kept = << >>, !.pos = ret.e,
                          !.done = Append(SubSeq(@, 1, Len(@) - 1),
                                     StOk(ret.t, LastDone.from, ret.e, ret.rest, TRUE))])
    /\ ret' = None
    /\ UNCHANGED << job, mode, log >>

RederiveFailed ==
    /\ Backward /\ ret.k = "err"
    /\ stack' = SetTop(DropLast(Top))
    /\ ret' = None
    /\ UNCHANGED << job, mode, log >>

ProductionFailed ==
    /\ Backward /\ ret.k = "none" /\ Top.done = << >>
    /\ stack' = Below
    /\ ret' = LET n == Len(Top.kept) IN
              [Ret("perr") EXCEPT !.entry =
                 << Entry(Rhs(Top), [k \in 1..n |-> Top.kept[n + 1 - k]], Top.f) >>]
    /\ UNCHANGED << job, mode, log >>

Finish ==
    /\ mode = "run" /\ stack = << >> /\ ret.k # "none"
    /\ mode' = "done"
    /\ UNCHANGED << job, stack, ret, log >>

Next ==
    \/ Begin \/ TryCandidate \/ CandidateMatched \/ CandidateFixed \/ CandidateFailed
    \/ AllFailedWithoutFixes \/ SymbolFailed \/ Consult \/ SolverDeclines \/ SolverFixes
    \/ MatchEmpty \/ MatchToken \/ TokenMismatch \/ Descend
    \/ SymbolMatched \/ SymbolFixed \/ SymbolNotMatched
    \/ ProductionMatched \/ ProductionFixed
    \/ GiveUpState \/ Rederive \/ RederiveMatched \/ RederiveFailed \/ ProductionFailed
    \/ Finish

InitWith(j) == job = j /\ mode = "start" /\ stack = << >> /\ ret = None /\ log = << >>

\* ------------------------------------------------------ the observed result
\* [k |-> "ok", tree] | [k |-> "err", fs] | [k |-> "fix", fx]; uniform record
Result == [k |-> ret.k, tree |-> ret.t, fs |-> ret.f, fx |-> ret.fx]
=============================================================================
