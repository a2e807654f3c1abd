------------------------------- MODULE Archive ------------------------------
(* Archives: which resources they consist of, when they can be opened and   *)
(* what they then contain; builders and writers of resources, also when     *)
(* they are interrupted, fail or are dropped.                               *)
(* Properties C12, C13, C15, C16 and C17 (and C18 for opened archives).     *)
(*                                                                          *)
(* The state of each stored resource (part) is abstract: of data and schema *)
(* it is known only whether they are intact, and contents are identified by *)
(* numbers.                                                                 *)
EXTENDS Layouts, Paths
VARIABLES parts,    \* state of each part by its path
          seen,     \* bytes by path which were read since they were written last
          handles,  \* directories: prefixes of paths
          builders, \* archive and prefix
          writers,  \* unfinished vectors and multivectors
          fault,    \* whether calls may fail: off, soft (transparent) or hard
          probed,   \* archive which is opened in snapshots
          obs
vars == <<parts, seen, handles, builders, writers, fault, probed, obs>>
Empty == [x \in {} |-> 0]
With(f, key, v) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN v ELSE f[x]]
Without(f, keys) == [x \in DOMAIN f \ keys |-> f[x]]
NONE == -2
GARBAGE == -1
NOITEMS == -3   \* of an empty index
LARGE == 50     \* more than 4 GiB

-----------------------------------------------------------------------------
(* Parts.  d: data is good, bad (wrong size in its header), wrong (not of   *)
(* the size of the struct), none or unknown (not readable for whatever      *)
(* reason); s: schema is none, utf8 (it is not), other, or the right one    *)
(* for an archive                                                           *)
Absent == [d |-> "none", s |-> "none", id |-> NONE]
Unknown == [d |-> "unknown", s |-> "other", id |-> NONE]
Good(a, id) == [d |-> "good", s |-> a, id |-> id]
At(S, p) == IF p \in DOMAIN S THEN S[p] ELSE Absent
Err(c, n) == [c |-> c, n |-> n]
\* errors with which reading may fail; none: it succeeds
Errors(x, a, name) ==
    IF x.d = "unknown" THEN {Err("notfound", name), Err("size", ""), Err("utf8", ""), Err("sig", name)}
    ELSE IF x.d = "none" \/ x.s = "none" THEN {Err("notfound", name)}
    ELSE IF x.d = "bad" THEN {Err("size", "")}
    ELSE (IF x.d = "wrong" THEN {Err("size", "")} ELSE {})
         \cup (IF x.s = "utf8" THEN {Err("utf8", "")} ELSE IF x.s # a THEN {Err("sig", name)} ELSE {})
Intact(S, p, a) == LET x == At(S, p) IN x.d = "good" /\ x.s = a

\* resources are <<kind, name, layout, optional>>
Res(a) == ArchiveOf[a].res
Signature(a) == a \o ".archive"
Dir(pre, name) == pre \o name \o "/"
RECURSIVE Defects(_, _, _)
\* errors with which opening may fail
Defects(S, a, pre) ==
    Errors(At(S, pre \o Signature(a)), a, Signature(a))
    \cup UNION {LET r == Res(a)[i] IN
                IF r[4] THEN {}
                ELSE IF r[1] = "sub" THEN Defects(S, r[3], Dir(pre, r[2]))
                ELSE Errors(At(S, pre \o r[2]), a, r[2])
                     \cup (IF r[1] = "mv" THEN Errors(At(S, pre \o r[2] \o "_index"), a, r[2] \o "_index") ELSE {})
                : i \in DOMAIN Res(a)}
Opens(S, a, pre) == Defects(S, a, pre) = {}
\* content of a resource, as number; all: without checks of archives
ContentId(S, a, pre, r, all) ==
    LET p == pre \o r[2]
        q == p \o "_index"
    IN IF all /\ At(S, p).d = "wrong" /\ At(S, p).s = a THEN GARBAGE
       ELSE IF ~ Intact(S, p, a) THEN NONE
       ELSE IF r[1] = "mv" THEN IF ~ Intact(S, q, a) THEN NONE
                                ELSE IF S[q].id = NOITEMS THEN 0
                                ELSE IF S[p].id = S[q].id /\ S[p].id # LARGE THEN S[p].id ELSE GARBAGE
       ELSE S[p].id
RECURSIVE ContentFrom(_, _, _, _, _, _)
\* content of an archive, with all resources or only those which can be accessed; names are relative
ContentFrom(S, a, pre, name, i, all) ==
    IF i > Len(Res(a)) THEN <<>>
    ELSE LET r == Res(a)[i]
             rest == ContentFrom(S, a, pre, name, i + 1, all)
         IN IF r[1] # "sub" THEN <<<<name \o r[2], ContentId(S, a, pre, r, all)>>>> \o rest
            ELSE IF all \/ Opens(S, r[3], Dir(pre, r[2])) THEN ContentFrom(S, r[3], Dir(pre, r[2]), Dir(name, r[2]), 1, all) \o rest
            ELSE <<<<name \o r[2], NONE>>>> \o rest
Content(S, a, pre) == ContentFrom(S, a, pre, "", 1, FALSE)
Each(S, a, pre) == ContentFrom(S, a, pre, "", 1, TRUE)
\* outcomes of opening: results and content
Outcomes(S, a, pre) == IF Opens(S, a, pre) THEN {[o |-> Err("ok", ""), content |-> Content(S, a, pre)]}
                       ELSE {[o |-> e, content |-> <<>>] : e \in Defects(S, a, pre)}

\* all parts of an archive with content id: the resources are numbered
RECURSIVE Complete(_, _, _, _)
CompleteFrom(a, pre, id, i) ==
    IF i > Len(Res(a)) THEN Empty
    ELSE LET r == Res(a)[i]
             k == (id + i - 1) % 5
             p == pre \o r[2]
         IN (CASE r[1] = "sub" -> Complete(r[3], Dir(pre, r[2]), id + i - 1, 1)
               [] r[1] = "mv" -> With(With(Empty, p, Good(a, k)), p \o "_index", Good(a, k))
               [] OTHER -> With(Empty, p, Good(a, k)))
Complete(a, pre, id, i) ==
    IF i > Len(Res(a)) THEN With(Empty, pre \o Signature(a), Good(a, 0))
    ELSE CompleteFrom(a, pre, id, i) @@ Complete(a, pre, id, i + 1)
\* a part which is damaged in some way, before: what is stored already
Hurt(x, how, before) ==
    CASE how = "ok" -> x
      [] how = "nodata" -> [x EXCEPT !.d = before.d, !.id = before.id]
      [] how = "noschema" -> [x EXCEPT !.s = before.s]
      [] how = "none" -> before
      [] how \in {"small", "big", "hollow", "largestruct"} -> [x EXCEPT !.d = "wrong"]
      [] how = "large" -> [x EXCEPT !.id = LARGE]
      [] how = "cleared" -> [x EXCEPT !.id = 0]
      [] how = "noitems" -> [x EXCEPT !.id = NOITEMS]
      [] how \in {"trunc", "long", "short", "empty", "hdr", "hdrhi", "largebad"} -> [x EXCEPT !.d = "bad"]
      [] how \in {"sch", "schlong", "schshort", "schempty", "schplain", "schnext", "schspace", "schlead", "schcase"} -> [x EXCEPT !.s = "other"]
      [] how = "utf8" -> [x EXCEPT !.s = "utf8"]
\* dmg: sequence of <<path, how>>
HowOf(dmg, p) == LET is == {i \in DOMAIN dmg : dmg[i][1] = p} IN IF is = {} THEN "ok" ELSE dmg[CHOOSE i \in is : \A j \in is : i <= j][2]

-----------------------------------------------------------------------------
(* Operations.  fired: a call failed during the operation                   *)
Handle(o) == handles[IF "h" \in DOMAIN o THEN o.h + 1 ELSE 1]
Obs(x) == obs' = x
Start(o) == /\ parts' = Empty /\ seen' = Empty /\ handles' = <<"">> /\ builders' = Empty /\ writers' = Empty
            /\ fault' = "off" /\ probed' = (IF "probe" \in DOMAIN o THEN o.probe ELSE "")
            /\ Obs([k |-> "ok"])
Sub(o) == LET d == Prefix(handles[o.h + 1] \o o.d) IN
          /\ handles' = IF o.q < Len(handles) THEN [handles EXCEPT ![o.q + 1] = d] ELSE Append(handles, d)
          /\ UNCHANGED <<parts, seen, builders, writers, fault, probed>>
          /\ Obs([k |-> "ok"])
\* sets the state of parts
Update(new) == /\ parts' = new @@ parts
               /\ seen' = Without(seen, DOMAIN new \cup {p \o ".schema" : p \in DOMAIN new})
Craft(o) ==
    LET all == Complete(o.a, Handle(o), o.id, 1)
        pre == Handle(o)
        rel == [p \in DOMAIN all |-> SubSeq(p, Len(pre) + 1, Len(p))]
        new == [p \in DOMAIN all |-> Hurt(all[p], HowOf(o.dmg, rel[p]), At(parts, p))]
    IN /\ Update(new)
       /\ UNCHANGED <<handles, builders, writers, fault, probed>>
       /\ Obs([k |-> "ok"])

Look == UNCHANGED <<parts, seen, handles, builders, writers, fault, probed>>
\* a call which fails makes at most one of the parts unreadable; the error is not specified then
Open(o, fired) ==
    /\ Look
    /\ \E p \in {""} \cup (IF fired THEN DOMAIN Complete(o.a, Handle(o), 0, 1) ELSE {}) :
         \E x \in Outcomes(IF p = "" THEN parts ELSE With(parts, p, Absent), o.a, Handle(o)) :
           Obs([k |-> "aopen", o |-> IF fired /\ x.o.c # "ok" THEN Err("failed", "") ELSE x.o, content |-> x.content])
Probe(o) == /\ Look
            /\ \E x \in Outcomes(parts, o.a, "") : Obs([k |-> "probe", p0 |-> [o |-> x.o, content |-> x.content, each |-> Each(parts, o.a, "")]])
\* bytes of resources do not change unless they are written; raw: the bytes found
Raw(o, raw) ==
    LET p == Handle(o) \o o.n IN
    /\ UNCHANGED <<parts, handles, builders, writers, fault, probed>>
    /\ IF p \in DOMAIN seen
       THEN UNCHANGED seen /\ Obs(seen[p])
       ELSE /\ At(parts, p).d \in {"good", "bad", "wrong"} => raw.e = ""
            /\ (p \in DOMAIN parts /\ parts[p].d = "none") => raw.e = "notfound"
            /\ seen' = With(seen, p, raw) /\ Obs(raw)

\* states of parts when their creation failed: nothing was done, or all, or they cannot be read
Either(p, a, id) == {At(parts, p), Unknown, Good(a, id)}
Create(o, x, a, pre, fired) ==
    LET p == pre \o Signature(a)
        known == At(parts, p).d
    IN /\ UNCHANGED <<handles, writers, fault, probed>>
       /\ \/ /\ ~ fired
             /\ known = "none" \/ known = "unknown"
             /\ Update(With(Empty, p, Good(a, 0)))
             /\ builders' = With(builders, x, [a |-> a, pre |-> pre])
             /\ Obs([k |-> "anew", o |-> Err("ok", "")])
          \/ /\ ~ fired
             /\ known # "none"
             /\ UNCHANGED <<parts, seen, builders>>
             /\ Obs([k |-> "anew", o |-> Err("exists", Signature(a))])
          \/ /\ fired
             /\ \E s \in Either(p, a, 0) : Update(With(Empty, p, s))
             /\ UNCHANGED builders
             /\ Obs([k |-> "anew", o |-> Err("failed", "")])
New(o, fired) == Create(o, o.x, o.a, Handle(o), fired)
ResOf(a, name) == LET i == CHOOSE i \in DOMAIN Res(a) : Res(a)[i][2] = name IN Res(a)[i]
NewSub(o, fired) == LET b == builders[o.y] IN Create(o, o.x, ResOf(b.a, o.res)[3], Dir(b.pre, o.res), fired)
Set(o, fired) ==
    LET b == builders[o.x]
        p == b.pre \o o.res
    IN /\ UNCHANGED <<handles, builders, writers, fault, probed>>
       /\ IF fired THEN (\E s \in Either(p, b.a, o.id) : Update(With(Empty, p, s))) /\ Obs([k |-> "err"])
          ELSE Update(With(Empty, p, Good(b.a, o.id))) /\ Obs([k |-> "ok"])

PathsOf(w) == {w.p} \cup (IF w.kind = "mv" THEN {w.p \o "_index"} ELSE {})
StartWriter(o, fired) ==
    LET b == builders[o.y]
        w == [a |-> b.a, y |-> o.y, res |-> o.res, p |-> b.pre \o o.res, kind |-> ResOf(b.a, o.res)[1], n |-> 0, ids |-> {}, tainted |-> FALSE]
        ps == PathsOf(w)
    IN /\ UNCHANGED <<handles, builders, fault, probed>>
       /\ IF fired
          THEN /\ \E c \in [ps -> {"old", "lost"}] : Update([p \in ps |-> IF c[p] = "old" THEN At(parts, p) ELSE Unknown])
               /\ UNCHANGED writers
               /\ Obs([k |-> "err"])
          ELSE /\ Update([p \in ps |-> Unknown])
               /\ writers' = With(writers, o.x, w)
               /\ Obs([k |-> "ok"])
Grow(o, fired) ==
    LET w == writers[o.x] IN
    /\ UNCHANGED <<parts, handles, builders, fault, probed>>
    /\ seen' = Without(seen, PathsOf(w))
    /\ IF fired
       THEN /\ writers' = With(writers, o.x, [w EXCEPT !.tainted = TRUE])
            /\ Obs([k |-> "err", len |-> w.n, open |-> TRUE])
       ELSE /\ writers' = With(writers, o.x, [w EXCEPT !.n = @ + 1, !.ids = @ \cup {o.id}])
            /\ Obs([k |-> "ok", len |-> w.n + 1, open |-> TRUE])
\* content number n has n elements
FinalId(w) == IF w.n = 0 THEN 0 ELSE IF w.ids = {w.n} THEN w.n ELSE GARBAGE
Close(o, fired) ==
    LET w == writers[o.x]
        ps == PathsOf(w)
        id == FinalId(w)
    IN /\ UNCHANGED <<handles, builders, fault, probed>>
       /\ writers' = Without(writers, {o.x})
       /\ \/ /\ ~ fired
             /\ Update([p \in ps |-> Good(w.a, id)])
             /\ Obs([k |-> "ok", id |-> id, silent |-> TRUE])
          \* if an error was reported before, also closing may fail
          \/ /\ fired \/ w.tainted
             /\ \E c \in [ps -> {"done", "lost"}] : Update([p \in ps |-> IF c[p] = "done" THEN Good(w.a, id) ELSE Unknown])
             /\ Obs([k |-> "err", id |-> NONE, silent |-> TRUE])
\* several writers are dropped at once, possibly while unwinding already
Drop(o) ==
    LET xs == {o.xs[i] : i \in DOMAIN o.xs} IN
    /\ UNCHANGED <<parts, seen, handles, builders, fault, probed>>
    /\ writers' = Without(writers, xs)
    /\ Obs([k |-> IF o.unwind THEN "user" ELSE IF xs \cap DOMAIN writers # {} THEN "panic" ELSE "silent"])

\* operations which are not possible are skipped
OpenOn(x, res) == \E w \in DOMAIN writers : writers[w].y = x /\ writers[w].res = res
Skipped(o) == CASE o.op \in {"wgrow", "wclose"} -> o.x \notin DOMAIN writers
                [] o.op = "wstart" -> o.x \in DOMAIN writers
                [] o.op = "aset" -> OpenOn(o.x, o.res)
                [] o.op = "craft" -> writers # Empty
                [] OTHER -> FALSE
SOFT == {0, 4}
Arm(o) == /\ fault' = IF o.at = 0 THEN "off" ELSE IF o.errno \in SOFT THEN "soft" ELSE "hard"
          /\ UNCHANGED <<parts, seen, handles, builders, writers, probed>>
          /\ Obs([k |-> "ok"])
Disarm(o) == /\ fault' = "off"
             /\ UNCHANGED <<parts, seen, handles, builders, writers, probed>>
             /\ Obs([k |-> "ok"])
\* operations which change nothing, neither resources nor anything else in the file system (C21);
\* also creating an archive which exists already
Reading(o, x) == \/ o.op \in {"sub", "aopen", "adebug", "adrop", "probe", "raw", "readonly"}
                 \/ x.k = "skip" \/ (x.k = "anew" /\ x.o.c = "exists")
Do(o, fired, raw) ==
    CASE Skipped(o) -> Look /\ Obs([k |-> "skip"])
      [] o.op = "reset" -> Start(o)
      [] o.op = "sub" -> Sub(o)
      [] o.op = "craft" -> Craft(o)
      [] o.op = "aopen" -> Open(o, fired)
      [] o.op = "adebug" -> Look /\ Obs([k |-> "adebug", o |-> Err("ok", "")])
      [] o.op = "adrop" -> Look /\ Obs([k |-> "ok"])
      [] o.op = "probe" -> Probe(o)
      [] o.op = "readonly" -> Look /\ Obs([k |-> "ok"])
      [] o.op = "raw" -> Raw(o, raw)
      [] o.op = "anew" -> New(o, fired)
      [] o.op = "asub" -> NewSub(o, fired)
      [] o.op = "aset" -> Set(o, fired)
      [] o.op = "wstart" -> StartWriter(o, fired)
      [] o.op = "wgrow" -> Grow(o, fired)
      [] o.op = "wclose" -> Close(o, fired)
      [] o.op = "wdrop" -> Drop(o)
      [] o.op = "arm" -> Arm(o)
      [] o.op \in {"disarm", "heal"} -> Disarm(o)
Init == /\ parts = Empty /\ seen = Empty /\ handles = <<"">> /\ builders = Empty /\ writers = Empty
        /\ fault = "off" /\ probed = "" /\ obs = [k |-> "ok"]

-----------------------------------------------------------------------------
(* Interruption of an operation: what may be found then (C15)               *)
\* parts which are affected by an operation, S and T: before and after it
Affected(S, T, ps) == {p \in ps : At(S, p) # At(T, p)}
Found(U, a, x) ==
    /\ x.each = Each(U, a, "")
    /\ IF Opens(U, a, "") THEN x.o.c = "ok" /\ x.content = Content(U, a, "")
       ELSE x.o.c \notin {"ok", "panic"} /\ x.content = <<>>
Bad(S, a) == \E i \in DOMAIN Each(S, a, "") : Each(S, a, "")[i][2] = GARBAGE
\* x: what is found in the archive a; touched: paths which the operation writes to
Interrupted(S, T, touched, a, x) ==
    \E c \in [touched -> {"before", "after", "lost"}] :
        LET U == [p \in touched |-> CASE c[p] = "before" -> At(S, p) [] c[p] = "after" -> At(T, p) [] OTHER -> Unknown] @@ S IN
        /\ Bad(U, a) => Bad(S, a) \/ Bad(T, a)
        /\ Found(U, a, x)
\* parts which an operation writes
Touched(o) == CASE Skipped(o) -> {}
                [] o.op = "anew" -> {Handle(o) \o Signature(o.a)}
                [] o.op = "asub" -> LET b == builders[o.y] IN {Dir(b.pre, o.res) \o Signature(ResOf(b.a, o.res)[3])}
                [] o.op = "aset" -> {builders[o.x].pre \o o.res}
                [] o.op = "wstart" -> LET b == builders[o.y] IN PathsOf([p |-> b.pre \o o.res, kind |-> ResOf(b.a, o.res)[1]])
                [] o.op \in {"wgrow", "wclose"} -> PathsOf(writers[o.x])
                [] OTHER -> {}
-----------------------------------------------------------------------------
(* C23: parts which an operation may change, also if it fails               *)
Own(o) == IF Skipped(o) THEN {}
          ELSE IF o.op = "craft" THEN DOMAIN Complete(o.a, Handle(o), 0, 1)
          ELSE IF o.op = "wdrop" THEN UNION {PathsOf(writers[x]) : x \in {o.xs[i] : i \in DOMAIN o.xs} \cap DOMAIN writers}
          ELSE Touched(o)
=============================================================================
