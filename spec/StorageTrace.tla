---------------------------- MODULE StorageTrace ----------------------------
(* Validates recorded operations on storages.  Operations of a storage are  *)
(* compared completely but for the following, which other properties decide *)
(* (PROP is the property which is checked): whether data handed out before  *)
(* is unchanged (C18), the diffs (C19), whether files and directories are   *)
(* untouched while they are read (C21), and which ones are changed by       *)
(* writing (C23).                                                           *)
EXTENDS Storage, Memory, Frames
VARIABLE l
TInit == Init /\ l = 1
Event == Trace[l]
Project(x) == [f \in DOMAIN x \ ({"diff", "t", "ch", "fired", "snaps", "calls"} \cup (IF PROP \in {"C18", "C14"} THEN {} ELSE {"p"})) |-> x[f]]
Explained == LET key == Path(Event.op) IN
             IF DiffOk(Event.obs.diff, files[key \o ".schema"], Event.op.sch) THEN TRUE
             ELSE Expect(l, <<"a diff of", files[key \o ".schema"], Event.op.sch>>) /\ FALSE
\* a call failed during a read, which may fail then, with an error which is not specified
Failed == /\ "fired" \in DOMAIN Event.obs /\ Event.obs.fired
          /\ \/ Event.op.op = "read" /\ Event.obs.k = "io"
             \/ Event.op.op = "raw" /\ Event.obs.k = "raw" /\ Event.obs.e # "" /\ Event.obs.b = <<>>
Pinned == PROP \in {"C18", "C14"} /\ "p" \in DOMAIN Event.obs =>
    IF Event.obs.p THEN TRUE ELSE Expect(l, "data handed out is unchanged") /\ FALSE
SeqSet(q) == {q[i] : i \in DOMAIN q}
Untouched == PROP = "C21" /\ Reading(Event.op) /\ "t" \in DOMAIN Event.obs =>
    IF Event.obs.t THEN TRUE ELSE Expect(l, "files and directories are as before") /\ FALSE
Framed == PROP = "C23" /\ "ch" \in DOMAIN Event.obs =>
    IF \A i \in DOMAIN Event.obs.ch : Within(Event.obs.ch[i], Own(Event.op)) THEN TRUE
    ELSE Expect(l, <<"nothing else is changed than", Own(Event.op)>>) /\ FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF Metering(Event.op)
            THEN UNCHANGED vars /\ Measured(l, Event)
            ELSE IF Event.op.op = "files"
            THEN /\ Look([k |-> "files"])
                 /\ IF Event.obs.k = "files" /\ Listed(SeqSet(Event.obs.v)) /\ Len(Event.obs.v) = Cardinality(SeqSet(Event.obs.v))
                    THEN TRUE ELSE Expect(l, DOMAIN files \cup DOMAIN sparse) /\ FALSE
            ELSE IF Failed THEN Look([k |-> "failed"]) /\ Pinned
            ELSE /\ Do(Event.op)
                 /\ Matches(l, Project(obs'), Project(Event.obs))
                 /\ (PROP = "C19" /\ obs'.k = "sig") => Explained
         /\ Untouched
         /\ Framed
TSpec == TInit /\ [][TNext]_<<vars, l>>
Post == Accepted(Len(Trace))
=============================================================================
