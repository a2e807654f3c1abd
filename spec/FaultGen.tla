------------------------------ MODULE FaultGen ------------------------------
(* Walks over all transitions of a resource of an archive: written at once  *)
(* or by a writer, again and again, over data of another version, where any *)
(* file system call of an operation fails (LABELS are the kinds of faults   *)
(* and MAXAT the number of calls) or the process may stop (snap).  Which    *)
(* calls there are is up to the implementation: operations which are not    *)
(* possible any more are skipped.                                           *)
EXTENDS Archive, GenIO
CONSTANTS RES, LABELS, MAXAT, MAXLEN
Kind == ResOf("Vecs", RES)[1]
Others == SelectSeq(<<"Vecs.archive", "v", "w", "m", "m_index", "n", "n_index">>, LAMBDA p : p \notin PathsOf([p |-> RES, kind |-> Kind]))
Stale(how) == [op |-> "craft", h |-> 0, a |-> "Vecs", id |-> 1,
               dmg |-> [i \in DOMAIN Others |-> <<Others[i], "none">>] \o <<<<RES, how>>>>]
Ops == (IF Kind = "vec" THEN {[op |-> "aset", x |-> 0, res |-> RES, id |-> k, sys |-> TRUE] : k \in {2, 3}} ELSE {})
       \cup {[op |-> "wstart", x |-> 0, y |-> 0, res |-> RES, sys |-> TRUE], [op |-> "wgrow", x |-> 0, id |-> 2, sys |-> TRUE],
             [op |-> "wclose", x |-> 0, sys |-> TRUE]}
Plain == {[op |-> "wdrop", xs |-> <<0>>, unwind |-> FALSE], Stale("sch"), Stale("ok")}
Fault(label, at) ==
    CASE label = "snap" -> [snap |-> TRUE, at |-> 0, writes |-> FALSE, errno |-> 0, sticky |-> FALSE]
      [] label = "io" -> [snap |-> FALSE, at |-> at, writes |-> FALSE, errno |-> 5, sticky |-> FALSE]
      [] label = "full" -> [snap |-> FALSE, at |-> at, writes |-> TRUE, errno |-> 28, sticky |-> TRUE]
      [] label = "torn" -> [snap |-> FALSE, at |-> at, writes |-> TRUE, errno |-> 28, sticky |-> FALSE, torn |-> TRUE]
      [] label = "short" -> [snap |-> FALSE, at |-> at, writes |-> TRUE, errno |-> 0, sticky |-> FALSE]
      [] label = "interrupted" -> [snap |-> FALSE, at |-> at, writes |-> TRUE, errno |-> 4, sticky |-> FALSE]
Faulty(o, label, at) == [op |-> "faulty", o |-> o, arm |-> Fault(label, at)]
Ats(o, label) == IF label = "snap" THEN {0}
                 ELSE IF o.op = "wgrow" THEN {1}
                 ELSE 1..(IF label = "io" THEN MAXAT ELSE MAXAT \div 2)
Hard(label) == label \in {"io", "full", "torn"}
First == <<[op |-> "reset", d |-> "storage", st |-> "file", probe |-> "Vecs"], [op |-> "anew", h |-> 0, x |-> 0, a |-> "Vecs"]>>
ASSUME EmitStart(First)
GInit == /\ seen = Empty /\ writers = Empty /\ fault = "off" /\ probed = "" /\ obs = [k |-> "ok"]
         /\ parts = With(Empty, "Vecs.archive", Good("Vecs", 0))
         /\ handles = <<"">>
         /\ builders = With(Empty, 0, [a |-> "Vecs", pre |-> ""])
State(pp, w) == <<{<<p, pp[p].d, pp[p].s, pp[p].id>> : p \in DOMAIN pp \ {"Vecs.archive"}}, {<<x, w[x].n, w[x].tainted>> : x \in DOMAIN w}>>
Possible(o) == /\ ~ Skipped(o)
               /\ o.op = "wgrow" => writers[o.x].n < MAXLEN
               /\ o.op = "wdrop" => writers # Empty
\* other parts are absent or as before
GNext == \/ \E o \in Plain : Possible(o) /\ Do(o, FALSE, 0) /\ EmitStep(State(parts, writers), o, State(parts', writers'))
         \/ \E o \in Ops : /\ Possible(o)
                           /\ \E label \in LABELS : \E at \in Ats(o, label) : \E fired \in BOOLEAN :
                                /\ fired => Hard(label)
                                /\ Do(o, fired, 0)
                                /\ EmitStep(State(parts, writers), Faulty(o, label, at), State(parts', writers'))
GSpec == GInit /\ [][GNext]_vars
View == State(parts, writers)
-----------------------------------------------------------------------------
Known == \A p \in DOMAIN parts : parts[p].d = "good" => parts[p].id # NONE
=============================================================================
