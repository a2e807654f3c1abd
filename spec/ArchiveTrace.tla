---------------------------- MODULE ArchiveTrace ----------------------------
(* Validates recorded operations on archives.  The names and kinds of       *)
(* errors of failing calls are not specified.  Whether data handed out is   *)
(* unchanged (p) is decided for C14 and C18 only, and whether files and      *)
(* directories are untouched while they are read (t) for C21, and which     *)
(* ones are changed by writing (ch) for C23.                                *)
EXTENDS Archive, Memory, Frames
VARIABLES l, known  \* names of all resources in question
TInit == Init /\ l = 1 /\ known = {}
Event == Trace[l]
Fired == fault = "hard" /\ "fired" \in DOMAIN Event.obs /\ Event.obs.fired
Pinned == "p" \in DOMAIN Event.obs /\ Event.op.op # "probe" => (PROP \in {"C14", "C18"} => Event.obs.p)
Plain(x) == [f \in DOMAIN x \ {"p", "t", "ch", "fired", "snaps", "calls", "s", "parts"} |-> x[f]]
Observed ==
    IF Event.op.op = "probe" /\ Event.obs.k = "probe" THEN [k |-> "probe", p0 |-> Event.obs.found]
    ELSE IF Event.obs.k = "aopen" /\ Fired /\ Event.obs.o.c \notin {"ok", "panic"}
    THEN [k |-> "aopen", o |-> Err("failed", ""), content |-> Event.obs.content]
    ELSE IF Event.obs.k = "anew" /\ Fired /\ Event.obs.o.c \notin {"ok", "panic"} THEN [k |-> "anew", o |-> Err("failed", "")]
    ELSE Plain(Event.obs)
\* bytes found, only of use for raw reads
RawFound == IF Event.obs.k = "raw" THEN Plain(Event.obs) ELSE [k |-> "raw", e |-> "none", b |-> <<>>]
Snapshots ==
    "snaps" \in DOMAIN Event.obs =>
      \A i \in DOMAIN Event.obs.snaps :
        IF Interrupted(parts, parts', Touched(Event.op), probed, Event.obs.snaps[i]) THEN TRUE
        ELSE Expect(l, <<"snapshot", ToString(i), "before", Each(parts, probed, ""), "after", Each(parts', probed, "")>>) /\ FALSE
\* C20: debug output of an intact archive tells its name, and then name and debug output of
\* each of its resources; how raw data is shown is not specified
RECURSIVE InOrder(_, _)
InOrder(text, pieces) ==
    IF pieces = <<>> THEN TRUE
    ELSE LET n == Len(Head(pieces))
             at == {i \in 1..(Len(text) - n + 1) : SubSeq(text, i, i + n - 1) = Head(pieces)}
         IN at # {} /\ LET i == Min(at) IN InOrder(SubSeq(text, i + n, Len(text)), Tail(pieces))
DebugPieces(a, found) == <<a>> \o [i \in DOMAIN Res(a) |-> Res(a)[i][2] \o ": " \o found[i][2]]
Shown == Event.op.op = "adebug" =>
    LET x == Event.obs IN
    IF /\ [i \in DOMAIN x.parts |-> x.parts[i][1]] = [i \in DOMAIN Res(Event.op.a) |-> Res(Event.op.a)[i][2]]
       /\ InOrder(x.s, DebugPieces(Event.op.a, x.parts))
    THEN TRUE ELSE Expect(l, <<"debug output with", DebugPieces(Event.op.a, x.parts)>>) /\ FALSE
Untouched == PROP = "C21" /\ Reading(Event.op, obs') /\ "t" \in DOMAIN Event.obs =>
    IF Event.obs.t THEN TRUE ELSE Expect(l, "files and directories are as before") /\ FALSE
\* files aside may be used until writing is completed
Framed == PROP = "C23" /\ "ch" \in DOMAIN Event.obs =>
    LET own == Own(Event.op)
        all == own \cup {p \o ".schema" : p \in own}
        aside == Fired \/ Event.op.op \in {"wstart", "wgrow", "wclose", "wdrop"}
    IN IF \A i \in DOMAIN Event.obs.ch : LET x == Event.obs.ch[i] IN Within(x, all) \/ (aside /\ Aside(x, all, known)) THEN TRUE
       ELSE Expect(l, <<"nothing else is changed than", all>>) /\ FALSE
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ known' = IF PROP # "C23" \/ Event.op.op # "reset" THEN known ELSE {Event.op.frame[i] : i \in DOMAIN Event.op.frame}
         /\ IF Metering(Event.op)
            THEN UNCHANGED vars /\ Measured(l, Event)
            ELSE Do(Event.op, Fired, RawFound) /\ Matches(l, obs', Observed)
         /\ IF Pinned THEN TRUE ELSE Expect(l, "data handed out is unchanged") /\ FALSE
         /\ Untouched
         /\ Framed
         /\ Snapshots
         /\ Shown
TSpec == TInit /\ [][TNext]_<<vars, l, known>>
Post == Accepted(Len(Trace))
=============================================================================
