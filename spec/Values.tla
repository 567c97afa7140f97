------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* Tokens as values: [s: type, x: lexeme, NoLex if none].  Two tokens are     *)
(* equal iff their types are, whatever their lexemes; a copy has the type and *)
(* the lexeme of its original, and stays as it is when the original changes.  *)
(* Same says which types are equal, for types whose equality is coarser       *)
(* than identity.                                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

TokenEq(Same(_, _), a, b) == Same(a.s, b.s)
EqMatrix(Same(_, _), ts) == [i \in DOMAIN ts |-> [j \in DOMAIN ts |-> TokenEq(Same, ts[i], ts[j])]]
NeMatrix(Same(_, _), ts) == [i \in DOMAIN ts |-> [j \in DOMAIN ts |-> ~TokenEq(Same, ts[i], ts[j])]]
=============================================================================
