---------------------------- MODULE MCPredictive ----------------------------
(* the pushdown machine step by step, on every input of the drawn grammars    *)
EXTENDS Predictive, Json, IOUtils

Lines == ndJsonDeserialize(IOEnv.JOBS)
Ctxs == TLCEval([k \in DOMAIN Lines |-> Context(Lines[k].g)])

VARIABLES k, n, st, i, mode
vars == << k, n, st, i, mode >>
C == Ctxs[k]
Toks == Lines[k].inputs[n]

Init == /\ k \in { j \in DOMAIN Lines : IsLL1(Ctxs[j]) }
        /\ n \in DOMAIN Lines[k].inputs
        /\ st = << C.g.start >> /\ i = 0 /\ mode = "run"

Top == Head(st)
Running == mode = "run" /\ st # << >>
Token == i < Len(Toks) /\ Toks[i + 1] = Top

Erase  == Running /\ Top = C.g.eps /\ st' = Tail(st) /\ UNCHANGED << k, n, i, mode >>
Expand == /\ Running /\ Top \in C.nt /\ Cands(C, Toks, Top, i) # << >>
          /\ st' = C.g.prods[Cands(C, Toks, Top, i)[1]].r \o Tail(st)
          /\ UNCHANGED << k, n, i, mode >>
Shift  == /\ Running /\ Top # C.g.eps /\ Top \notin C.nt /\ Token
          /\ st' = Tail(st) /\ i' = i + 1 /\ UNCHANGED << k, n, mode >>
Stop   == /\ Running /\ Top # C.g.eps
          /\ IF Top \in C.nt THEN Cands(C, Toks, Top, i) = << >> ELSE ~Token
          /\ mode' = "stopped" /\ UNCHANGED << k, n, st, i >>
Accept == mode = "run" /\ st = << >> /\ mode' = "accepted" /\ UNCHANGED << k, n, st, i >>
Next == Erase \/ Expand \/ Shift \/ Stop \/ Accept
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* every step keeps the promise: what was read and the stack form a sentential
\* form, so what was read is a viable prefix
Viable == AllProductive(C.g) => ViablePrefix(C.g, SubSeq(Toks, 1, i))
\* the end marker is what tells the end of a sentence
Sentence == (mode = "accepted" /\ HasEndMarker(C.g)) => IsSentence(C.g, SubSeq(Toks, 1, i))
Complete == mode = "stopped" => ~IsSentence(C.g, Toks) \/ ~HasEndMarker(C.g)
Located == (mode = "stopped" /\ AllProductive(C.g) /\ i < Len(Toks)) =>
              ~ViablePrefix(C.g, SubSeq(Toks, 1, i + 1))
SameAsDrive == mode \in {"accepted", "stopped"} =>
                  PredictiveRun(C, Toks) = [ok |-> mode = "accepted", at |-> i]
\* and the recursive descent does the same
SameAsDescent == mode \in {"accepted", "stopped"} =>
                  ParseResult(C, Toks, Toks).k = (IF mode = "accepted" THEN "ok" ELSE "err")
Ends == <>(mode # "run")
=============================================================================
