------------------------------ MODULE WideTrace -----------------------------
(* Validates recorded operations: each has exactly the specified result.    *)
EXTENDS Wide, Memory
VARIABLE l
TInit == Init /\ l = 1
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF Metering(Trace[l].op)
            THEN UNCHANGED vars /\ Measured(l, Trace[l])
            ELSE Do(Trace[l].op) /\ Matches(l, obs', Trace[l].obs)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Post == Accepted(Len(Trace))
=============================================================================
