------------------------------ MODULE PairTrace ------------------------------
(* C14: a memory storage and a file storage which go through the same       *)
(* history are indistinguishable.  The state of each of them is what was    *)
(* observed so far; the relation between them is equality.  That the        *)
(* specifications Storage, Archive, ExtVector and MultiVector do not depend *)
(* on the kind of storage is part of these modules.                         *)
EXTENDS TraceIO
VARIABLES l, mem, file
TInit == l = 1 /\ mem = <<>> /\ file = <<>>
Event == Trace[l]
Step(e) == IF DOMAIN e.obs = DOMAIN e.other THEN Matches(l, e.obs, e.other) ELSE Expect(l, e.obs) /\ FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ Step(Event)
         /\ mem' = Event.obs /\ file' = Event.other
TSpec == TInit /\ [][TNext]_<<l, mem, file>>
Post == Accepted(Len(Trace))
=============================================================================
