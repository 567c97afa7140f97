------------------------------ MODULE MCParser ------------------------------
(***************************************************************************)
(* Model checking of the parser machine: every input of the drawn grammars,  *)
(* without and with a solver, and with every answer the solver may give.     *)
(* Terminal behaviours are written out for replay on the implementation.     *)
(* Environment: JOBS file from Gen, MAXFIX fixes per parse, OUT file or "".  *)
(***************************************************************************)
EXTENDS Parser, Props, Json, IOUtils, CSV

Lines == ndJsonDeserialize(IOEnv.JOBS)
\* with its own sets, or with the ones that come with it
Ctxs == TLCEval([k \in DOMAIN Lines |->
           IF "given" \in DOMAIN Lines[k]
           THEN SuppliedContext(Lines[k].g, TLCEval(AsFunction(Lines[k].given.first)), TLCEval(AsFunction(Lines[k].given.follow)))
           ELSE Context(Lines[k].g)])
MaxFix == atoi(IOEnv.MAXFIX)
Emit == IOEnv.OUT

\* a job is << grammar, input, solver attached >>
MCJobOf(j) ==
    LET t == Lines[j[1]].inputs[j[2]]
    IN [c |-> j[1], toks |-> t, lex |-> [i \in DOMAIN t |-> i], solver |-> j[3]]
MCCtx(k) == Ctxs[k]

\* the solver declines, or fixes without moving, or skips one or two tokens
\* (also past the end); a fix is recognisable by its number
Decline == [ans |-> "no", to |-> 0, parts |-> << >>]
Mark(n) == << PartGap(<<n>>, <<"gap">>) >>
FixesSoFar(l) == Cardinality({ n \in DOMAIN l : l[n].ans = "fix" })
MCAnswers(j, l) ==
    { Decline } \cup
    (IF FixesSoFar(l) >= MaxFix THEN {}
     ELSE { [ans |-> "fix", to |-> l[Len(l)].pos + d, parts |-> Mark(Len(l))] : d \in 0..2 })

MCInit == \E k \in DOMAIN Lines : \E n \in DOMAIN Lines[k].inputs : \E s \in BOOLEAN :
              InitWith(<< k, n, s >>)

Finished == mode = "done" /\ UNCHANGED vars
MCNext == Next \/ Finished
MCSpec == MCInit /\ [][MCNext]_vars /\ WF_vars(Next)

\* ---------------------------------------------------------------- checking
Done == mode = "done"
Plain == Done /\ ~J.solver

Terminates == <>(mode = "done")

\* the machine and the function agree
BigStep == Plain => LET m == ParseResult(C, J.toks, J.lex) IN
             /\ Result.k = m.k
             /\ m.k = "ok" => Result.tree = m.tree /\ IsTree(m.tree)
             /\ m.k = "err" => Result.fs = m.fs

Inv07 == Done => P07(C, J.toks, J.lex, Result)
Inv08 == Done => P08(C, J.toks, J.lex, Result)
Inv09 == Plain => P09(C, J.toks, J.lex, Result)
Inv10 == Done => Result.k \in {"ok", "err", "fix"}
Inv11 == Plain => P11(C, J.toks, J.lex, Result)
Inv12 == Plain => P12(C, J.toks, J.lex, Result)
Inv13 == Plain => P13(C, J.toks, J.lex, Result)
Inv14 == Plain => P14(C, J.toks, J.lex, Result)

Inv15 ==
    /\ Done => LET m == ParseResult(C, J.toks, J.lex) IN
               /\ m.k = "ok" => Result.k = "ok" /\ Result.tree = m.tree /\ log = << >>
               /\ Result.k = "ok" => m.k = "ok"
    /\ mode = "ask" => HandedOver(C, J.toks, J.lex, log[Len(log)])

\* consultations: allowed only on a single path, innermost first; a declined
\* one is followed by the enclosing one or by another attempt further left
SinglePath == \A n \in DOMAIN stack : stack[n].fr = "sym" =>
                 (stack[n].sp <=> \A m \in 1..(n - 1) : stack[m].fr = "sym" => Len(stack[m].cs) = 1)
Rederiving == \E n \in DOMAIN stack : stack[n].fr = "sym" /\ stack[n].again
Inv16 ==
    /\ mode = "ask" =>
         /\ ~Rederiving
         /\ \A m \in 1..(Len(stack) - 1) : stack[m].fr = "sym" => Len(stack[m].cs) = 1
         /\ LET l == log[Len(log)] IN
            /\ l.pos = Top.i
            /\ Len(l.ps) = Len(Cands(C, J.toks, Top.A, l.pos))
            /\ (l.kind = "one") = (Len(l.ps) = 1)
    /\ Done /\ J.solver /\ Result.k = "err" =>
         /\ log # << >>
         /\ LET l == log[Len(log)] IN l.ans = "no" /\ l.pos = 0 /\ l.ps = Result.fs.ps
    \* without alternatives nothing is matched differently after a declined fix
    /\ IsLL1(C) => \A n \in 1..(Len(log) - 1) :
         (log[n].ans = "no" /\ \A m \in DOMAIN log : log[m].ans = "no") => log[n + 1].pos <= log[n].pos

\* a fixed symbol, wherever it starts at i, ends at one of these positions
RECURSIVE FixEnds(_, _, _), PartEnds(_, _, _, _)
FixEnds(fx, i, l) ==
    { l[n].to : n \in { m \in DOMAIN l : l[m].ans = "fix" /\ l[m].pos = i /\ l[m].parts = fx.parts } }
    \cup (IF \E k \in DOMAIN fx.parts : fx.parts[k].k = "fix"
             /\ [k2 \in DOMAIN fx.parts |-> IF fx.parts[k2].k = "ok" THEN fx.parts[k2].t[1].s
                                          ELSE IF fx.parts[k2].k = "fix" THEN fx.parts[k2].fx[1].s ELSE ""]
                \in C.outs[fx.s]
          THEN PartEnds(fx.parts, 1, {i}, l) ELSE {})
PartEnds(parts, k, I, l) ==
    IF k > Len(parts) THEN I
    ELSE PartEnds(parts, k + 1,
           UNION { IF parts[k].k = "ok"
                   THEN IF LeavesAre(C, parts[k].t, J.toks, J.lex, i)
                        THEN { i + Yield(C, parts[k].t) } ELSE {}
                   ELSE IF parts[k].k = "fix" THEN FixEnds(parts[k].fx[1], i, l) ELSE {} : i \in I }, l)

Inv17 ==
    Done => /\ Result.k = "fix" => /\ Result.fx.s = C.g.start
                                   /\ FixEnds(Result.fx, 0, log) # {}
            /\ Result.k = "ok" => \A n \in DOMAIN log : log[n].ans = "no"

\* a solver that always declines changes nothing
Inv18 == Done /\ (\A n \in DOMAIN log : log[n].ans = "no") =>
             LET m == ParseResult(C, J.toks, J.lex) IN
             /\ Result.k = m.k
             /\ m.k = "ok" => Result.tree = m.tree
             /\ m.k = "err" => Result.fs = m.fs

\* ---------------------------------------------------------------- emission
Behaviour == [c |-> job[1], n |-> job[2], solver |-> J.solver, result |-> Result, log |-> log]
EmitDone == (Done /\ Emit # "") => CSVWrite("%1$s", << ToJson(Behaviour) >>, Emit)
=============================================================================
