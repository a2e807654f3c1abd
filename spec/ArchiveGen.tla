----------------------------- MODULE ArchiveGen -----------------------------
(* Walks over all transitions of archives in a storage.  MODE: build (two   *)
(* archives and a subarchive in common directories) or life (writers of     *)
(* vectors and multivectors).                                               *)
EXTENDS Archive, GenIO
CONSTANTS KIND, MODE, MAXLEN
BuildOps ==
    {[op |-> "anew", h |-> 0, x |-> 0, a |-> "Mid"], [op |-> "anew", h |-> 0, x |-> 1, a |-> "Leaf"],
     [op |-> "anew", h |-> 1, x |-> 2, a |-> "Leaf"], [op |-> "asub", x |-> 2, y |-> 0, res |-> "leaf"],
     [op |-> "aset", x |-> 0, res |-> "m", id |-> 1], [op |-> "aset", x |-> 0, res |-> "m", id |-> 2],
     [op |-> "aset", x |-> 1, res |-> "r", id |-> 1], [op |-> "aset", x |-> 1, res |-> "r", id |-> 2],
     [op |-> "aset", x |-> 2, res |-> "r", id |-> 3],
     [op |-> "aopen", h |-> 0, a |-> "Mid"], [op |-> "aopen", h |-> 0, a |-> "Leaf"], [op |-> "aopen", h |-> 1, a |-> "Leaf"],
     [op |-> "aopen", h |-> 0, a |-> "Mid", fresh |-> TRUE]}
    \cup {[op |-> "raw", h |-> 0, n |-> n, pin |-> FALSE] : n \in {"Mid.archive", "Mid.archive.schema", "r", "leaf/r.schema"}}
LifeOps ==
    {[op |-> "wstart", x |-> 0, y |-> 0, res |-> "v"], [op |-> "wstart", x |-> 1, y |-> 0, res |-> "m"],
     [op |-> "wgrow", x |-> 0, id |-> 1], [op |-> "wgrow", x |-> 1, id |-> 1],
     [op |-> "wclose", x |-> 0], [op |-> "wclose", x |-> 1],
     [op |-> "aopen", h |-> 0, a |-> "Vecs"]}
    \cup {[op |-> "wdrop", xs |-> xs, unwind |-> u] : xs \in {<<0>>, <<1>>, <<0, 1>>, <<1, 0>>}, u \in BOOLEAN}
Ops == IF MODE = "build" THEN BuildOps ELSE LifeOps
Possible(o) ==
    CASE o.op \in {"aset"} -> o.x \in DOMAIN builders
      [] o.op \in {"asub", "wstart"} -> o.y \in DOMAIN builders /\ (o.op = "wstart" => o.x \notin DOMAIN writers)
      [] o.op = "wgrow" -> o.x \in DOMAIN writers /\ writers[o.x].n < MAXLEN
      [] o.op = "wclose" -> o.x \in DOMAIN writers
      [] o.op = "wdrop" -> \A i \in DOMAIN o.xs : o.xs[i] \in DOMAIN writers
      [] OTHER -> TRUE
First == <<[op |-> "reset", d |-> "storage", st |-> KIND]>>
         \o (IF MODE = "build" THEN <<[op |-> "sub", h |-> 0, d |-> "leaf", q |-> 1]>>
             ELSE <<[op |-> "anew", h |-> 0, x |-> 0, a |-> "Vecs"]>>)
ASSUME EmitStart(First)
GInit == /\ seen = Empty /\ writers = Empty /\ fault = "off" /\ probed = "" /\ obs = [k |-> "ok"]
         /\ IF MODE = "build"
            THEN parts = Empty /\ handles = <<"", "leaf/">> /\ builders = Empty
            ELSE /\ parts = With(Empty, "Vecs.archive", Good("Vecs", 0))
                 /\ handles = <<"">>
                 /\ builders = With(Empty, 0, [a |-> "Vecs", pre |-> ""])
State(pp, b, w) == <<{<<p, pp[p].d, pp[p].id>> : p \in DOMAIN pp}, DOMAIN b, {<<x, w[x].n>> : x \in DOMAIN w}>>
\* raw reads do not matter for further operations
GNext == \E o \in Ops : /\ Possible(o)
                        /\ Do(o, FALSE, [k |-> "raw", e |-> IF o.op = "raw" /\ At(parts, o.n).d = "good" THEN "" ELSE "notfound", b |-> <<>>])
                        \* C23
                        /\ Assert(\A p \in DOMAIN parts' : At(parts, p) = At(parts', p) \/ p \in Own(o), <<"changes something else", o>>)
                        /\ EmitStep(State(parts, builders, writers), o, State(parts', builders', writers'))
GSpec == GInit /\ [][GNext]_vars
View == State(parts, builders, writers)
-----------------------------------------------------------------------------
Archives == {"Mid", "Leaf", "Vecs"}
\* an archive which can be opened is complete: C12 and C15
WhenOpen == \A a \in Archives : \A i \in DOMAIN Res(a) :
              (Opens(parts, a, "") /\ ~ Res(a)[i][4] /\ Res(a)[i][1] # "sub") => ContentId(parts, a, "", Res(a)[i], FALSE) # NONE
\* resources which are being written cannot be read
WhileWritten == \A x \in DOMAIN writers : ~ Intact(parts, writers[x].p, writers[x].a)
\* a signature does not change (C13)
OnceCreated == [][\A p \in {"Mid.archive", "Leaf.archive", "leaf/Leaf.archive"} : p \in DOMAIN parts => parts'[p] = parts[p]]_vars
=============================================================================
