------------------------------ MODULE MCValues ------------------------------
(* a few tokens made, copied, changed and given up in any order, with types    *)
(* that are equal without being identical                                      *)
EXTENDS Values, TLC
CONSTANT MaxHeap

Types == {"a", "A", "b"}
Same(x, y) == x = y \/ {x, y} = {"a", "A"}
Lexemes == {0 - 1, 0, 1}
Tokens == [s : Types, x : Lexemes]

VARIABLES heap,  \* the tokens that exist
          orig   \* what each of them was when it was made, copied or last changed
vars == << heap, orig >>
Init == heap = << >> /\ orig = << >>
Make(t) == Len(heap) < MaxHeap /\ heap' = Append(heap, t) /\ orig' = Append(orig, t)
Copy(k) == Len(heap) < MaxHeap /\ heap' = Append(heap, heap[k]) /\ orig' = Append(orig, orig[k])
Change(k, t) == heap' = [heap EXCEPT ![k] = t] /\ orig' = [orig EXCEPT ![k] = t]
Without(q, k) == [i \in 1..(Len(q) - 1) |-> IF i < k THEN q[i] ELSE q[i + 1]]
Drop(k) == heap' = Without(heap, k) /\ orig' = Without(orig, k)
Next == \/ \E t \in Tokens : Make(t)
        \/ \E k \in DOMAIN heap : Copy(k) \/ Drop(k) \/ \E t \in Tokens : Change(k, t)
Spec == Init /\ [][Next]_vars

E == EqMatrix(Same, heap)
Unshared == heap = orig
Equivalence ==
    \A i, j, k \in DOMAIN heap :
        /\ E[i][i]
        /\ E[i][j] = E[j][i]
        /\ E[i][j] /\ E[j][k] => E[i][k]
        /\ NeMatrix(Same, heap)[i][j] = ~E[i][j]
        /\ heap[i].s = heap[j].s => E[i][j]
=============================================================================
