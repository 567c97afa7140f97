------------------------------ MODULE SelfTest ------------------------------
(* Which of the records are allowed: for corrupted ones (tools/selftest.py)     *)
EXTENDS Records
SNext == /\ i = 0
         /\ i' \in { k \in DOMAIN Recs : k % Blocks = blk - 1 }
         /\ PrintT(<< "verdict", i', Judge(Recs[i']) >>)
         /\ UNCHANGED blk
=============================================================================
