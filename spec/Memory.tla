------------------------------- MODULE Memory -------------------------------
(* Memory needed for data of any size in files, in MiB: a buffer while data  *)
(* is written, and nothing but mappings while it is read.                   *)
(* Property C22.                                                            *)
EXTENDS TraceIO
\* the buffer of 32 MiB and an element (the generators use elements of up to 12 MiB), the unused
\* part of the memory allocated for it, and the old memory while it is extended
WRITING == 256
READING == 16
Bound(o) == IF o.of = "read" THEN READING ELSE WRITING
Metering(o) == o.op \in {"heapstart", "heap"}
Measured(n, e) == IF e.op.op = "heap" /\ (e.obs.k # "heap" \/ e.obs.mib > Bound(e.op))
                  THEN Expect(n, <<"at most", ToString(Bound(e.op)), "MiB">>) /\ FALSE ELSE TRUE
=============================================================================
