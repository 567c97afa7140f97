----------------------------- MODULE MCAnalysis -----------------------------
(* all orders of evaluation, for the drawn grammars (JOBS file from Gen)      *)
EXTENDS Analysis, Json, IOUtils
Lines == ndJsonDeserialize(IOEnv.JOBS)
MCOf(k) == Lines[k].g
MCInit == AInit({ k \in DOMAIN Lines : WellFormed(Lines[k].g) })
Ended == phase = "done" /\ UNCHANGED avars
MCNext == ANext \/ Ended
MCSpec == MCInit /\ [][MCNext]_avars /\ WF_avars(ANext)
=============================================================================
