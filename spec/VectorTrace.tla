---- MODULE VectorTrace ----
(* Validates recorded operations: each has exactly the specified result.    *)
EXTENDS Vector, TraceIO
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Do(Trace[l].op)
         /\ Matches(l, obs', Trace[l].obs)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Post == Accepted(Len(Trace))
====
