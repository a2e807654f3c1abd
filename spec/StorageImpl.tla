----------------------------- MODULE StorageImpl ----------------------------
(* How storages find a resource again: files are mapped into memory, and    *)
(* memory storages keep copies of what was read.  Checked to implement      *)
(* Storage for one resource, which is accessed through two handles: each    *)
(* read returns the current content, and data handed out never changes.     *)
(* BUG selects a variant with a defect.                                     *)
EXTENDS Integers, Sequences, FiniteSets, GenIO
CONSTANTS KIND, BUG, EMIT
VARIABLES cur,    \* content of the resource, or None
          goal,   \* what it should be
          open,   \* the stream is still open
          maps,   \* for each handle: mapping (or copy): content, and whether it is of the current file
          pins,   \* data handed out: content then and now, whether it is of the current file
          last    \* result of the last read, and what it should be
vars == <<cur, goal, open, maps, pins, last>>
CONTENTS == {<<>>, <<1>>, <<2>>, <<1, 1>>}
None == <<-1>>
NoMap == [c |-> None, live |-> FALSE]
Ops(o) == IF EMIT THEN EmitStep(<<cur, open, maps>>, o, <<cur', open', maps'>>) ELSE TRUE
Init == /\ cur = None /\ goal = None /\ open = FALSE
        /\ maps = [h \in 1..2 |-> NoMap]
        /\ pins = {}
        /\ last = [got |-> None, want |-> None]
ASSUME EMIT => EmitStart(<<[op |-> "reset", d |-> "storage", st |-> KIND], [op |-> "sub", h |-> 0, d |-> "./d", q |-> 1]>>)
\* the harness reaches the resource as d/r of the first handle, and as ./d/./r of the second
Name(h) == IF h = 1 THEN "d/r" ELSE "./r"
Slot(h) == IF BUG = "unshared" THEN h ELSE 1

\* files: a new file is created, or (in a defective variant) the old one is truncated
Created(h) == [g \in 1..2 |-> IF g = Slot(h) /\ BUG # "remember" THEN NoMap
                             ELSE IF BUG = "truncate" THEN [maps[g] EXCEPT !.c = IF maps[g].live THEN <<>> ELSE @]
                             ELSE [maps[g] EXCEPT !.live = FALSE]]
Replaced == IF BUG = "truncate" THEN {IF p.live THEN [p EXCEPT !.now = <<>>] ELSE p : p \in pins}
            ELSE {[p EXCEPT !.live = FALSE] : p \in pins}
\* memory: copies remain
Kept == IF BUG = "append" /\ cur # None THEN cur ELSE <<>>
Create(h, c, stays) ==
    /\ ~ open
    /\ cur' = Kept \o c /\ goal' = c
    /\ open' = stays
    /\ IF KIND = "file" THEN maps' = Created(h) /\ pins' = Replaced ELSE UNCHANGED <<maps, pins>>
    /\ UNCHANGED last
    /\ IF stays THEN Ops([op |-> "sopen", x |-> 0, h |-> h - 1, n |-> Name(h)])
       ELSE Ops([op |-> "put", h |-> h - 1, n |-> Name(h), b |-> c])
Add(b) ==
    /\ open /\ Len(cur) < 2
    /\ cur' = Append(cur, b) /\ goal' = Append(goal, b)
    /\ UNCHANGED <<open, maps, pins, last>>
    /\ Ops([op |-> "swrite", x |-> 0, pos |-> -1, b |-> <<b>>])
Done == /\ open /\ open' = FALSE
        /\ UNCHANGED <<cur, goal, maps, pins, last>>
        /\ Ops([op |-> "sdrop", x |-> 0])
ReadFile(h) ==
    LET m == maps[Slot(h)]
        usable == m.c # None /\ Len(m.c) = Len(cur)
        n == IF usable \/ cur = <<>> THEN m ELSE [c |-> cur, live |-> TRUE]
        got == IF cur = None THEN None ELSE IF cur = <<>> THEN <<>> ELSE n.c
    IN /\ maps' = IF cur \in {None, <<>>} THEN maps ELSE [maps EXCEPT ![Slot(h)] = n]
       /\ last' = [got |-> got, want |-> goal]
       \* data of unfinished resources is not used further
       /\ pins' = IF open \/ got = None THEN pins ELSE pins \cup {[then |-> got, now |-> got, live |-> n.live /\ cur # <<>>]}
ReadMemory(h) ==
    LET m == maps[Slot(h)]
        got == IF cur = None THEN None ELSE IF BUG = "stale" /\ m.c # None THEN m.c ELSE cur
    IN /\ maps' = IF got = None THEN maps ELSE [maps EXCEPT ![Slot(h)] = [c |-> got, live |-> FALSE]]
       /\ last' = [got |-> got, want |-> goal]
       /\ pins' = IF open \/ got = None THEN pins ELSE pins \cup {[then |-> got, now |-> got, live |-> FALSE]}
Read(h) == /\ IF KIND = "file" THEN ReadFile(h) ELSE ReadMemory(h)
           /\ UNCHANGED <<cur, goal, open>>
           /\ Ops(IF open THEN [op |-> "exists", h |-> h - 1, n |-> Name(h)]
                  ELSE [op |-> "raw", h |-> h - 1, n |-> Name(h), pin |-> TRUE])
Next == \/ \E h \in 1..2 : \E c \in CONTENTS : Create(h, c, FALSE)
        \/ \E h \in 1..2 : Create(h, <<>>, TRUE)
        \/ \E b \in {1, 2} : Add(b)
        \/ Done
        \/ \E h \in 1..2 : Read(h)
Spec == Init /\ [][Next]_vars
View == <<cur, open, maps>>
\* a read while the resource is written may return less, but not something else
UpToDate == last.got = last.want
Unchanged == \A p \in pins : p.now = p.then
=============================================================================
