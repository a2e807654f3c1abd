----------------------------- MODULE StorageGen -----------------------------
(* Walks over all transitions of a storage with two resources, one of them  *)
(* in a directory, which are written through several handles, also          *)
(* partially and damaged.                                                   *)
EXTENDS Storage, GenIO
CONSTANTS KIND, BIG
Contents == {<<>>, <<7>>} \cup (IF BIG THEN {<<1, 2, 3, 4, 5, 6, 7, 8, 9>>} ELSE {})
Schemas == {<<>>, <<120>>} \cup (IF BIG THEN {<<120, 10>>} ELSE {})
\* handle 1 is the directory d
Names == {<<0, "a">>, <<0, "d/b">>, <<1, "b">>}
Damaged == {<<>>, FromInt(2) \o <<7>> \o Zeros(8)} \cup (IF BIG THEN {Frame(<<7>>) \o <<0>>, FromInt(0)} ELSE {})
Ops == {[op |-> "write", h |-> n[1], n |-> n[2], sch |-> s, b |-> b] : n \in Names, s \in Schemas, b \in Contents}
       \cup {[op |-> "put", h |-> 0, n |-> "a", b |-> b] : b \in Damaged}
       \cup {[op |-> "put", h |-> 0, n |-> "a.schema", b |-> <<255>>]}
       \cup {[op |-> "read", h |-> n[1], n |-> n[2], sch |-> s] : n \in Names, s \in Schemas}
       \cup {[op |-> "exists", h |-> n[1], n |-> n[2]] : n \in Names}
       \cup {[op |-> "exists", h |-> 1, n |-> "a"], [op |-> "exists", h |-> 1, n |-> "b.schema"]}
       \cup {[op |-> "raw", h |-> n[1], n |-> n[2], pin |-> TRUE] : n \in Names}
First == <<[op |-> "reset", d |-> "storage", st |-> KIND], [op |-> "sub", h |-> 0, d |-> "d", q |-> 1]>>
ASSUME EmitStart(First)
GStart == /\ st = KIND /\ files = Empty /\ sparse = Empty /\ handles = <<"", "d/">> /\ streams = Empty /\ obs = [k |-> "ok"]
\* C23
Framed(o) == \A p \in DOMAIN files \cup DOMAIN files' :
               (p \in DOMAIN files /\ p \in DOMAIN files' /\ files[p] = files'[p]) \/ p \in Own(o)
GNext == \E o \in Ops : Do(o) /\ Assert(Framed(o), <<"changes something else", o>>) /\ EmitStep(files, o, files')
GSpec == GStart /\ [][GNext]_vars
View == files
-----------------------------------------------------------------------------
(* C10 and C11 on the specification                                         *)
Complete == \A n \in DOMAIN files : \A s \in Schemas :
              (n \o ".schema" \in DOMAIN files /\ OutcomeOf(n, s) = "ok") =>
                 \E b \in Contents : files[n] = Frame(b) /\ files[n \o ".schema"] = s
=============================================================================
