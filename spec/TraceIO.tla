------------------------------ MODULE TraceIO -------------------------------
(* Traces recorded from the implementation: one JSON record per operation,  *)
(* with the operation (op) and what was observed (obs).                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the property which is decided; the modules are shared by several ones
PROP == IOEnv.PROP
Same(a, b) == a.k = b.k /\ a = b
\* reports the observation which is expected in place of event l
Expect(l, x) == PrintT("EXPECT " \o ToString(l) \o " " \o ToJson(x))
Matches(l, a, b) == IF Same(a, b) THEN TRUE ELSE Expect(l, a) /\ FALSE
\* deviations which are listed in known_findings.txt
Listed(id) == id = IOEnv.KNOWN
KnownFinding(id, what) == Listed(id) /\ PrintT("KNOWN " \o id \o " " \o what)
\* every event was explained
Accepted(n) == /\ PrintT("DIAMETER " \o ToString(TLCGet("stats").diameter))
               /\ TLCGet("stats").diameter - 1 = n
=============================================================================
