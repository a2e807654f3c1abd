--------------------------- MODULE IteratorsTrace ---------------------------
(* Validates recorded operations: each has exactly the specified result.    *)
EXTENDS Iterators, TraceIO
VARIABLE l
TInit == Init /\ l = 1
Event == Trace[l]
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF Event.op.op = "hint"
            THEN IF Event.obs.k = "hint" /\ ENABLED Hint(Event.op, Event.obs.lo, Event.obs.hi)
                 THEN Hint(Event.op, Event.obs.lo, Event.obs.hi)
                 ELSE Expect(l, "bounds of the number of remaining items") /\ FALSE
            ELSE /\ Do(Event.op)
                 /\ Matches(l, obs', Event.obs)
TSpec == TInit /\ [][TNext]_<<vars, l>>
Post == Accepted(Len(Trace))
=============================================================================
