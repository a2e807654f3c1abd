----------------------------- MODULE WriterImpl -----------------------------
(* How resources come into files: by which calls, in which order.  Each     *)
(* state is one in which the process may stop (C15), each call may fail     *)
(* (C16), and writers may be dropped at any time (C17).  Checked to         *)
(* implement the transitions of resources in Archive: what can be read is   *)
(* what was there before or what was to be written, success is reported     *)
(* only if it was written, and a drop panics exactly once if it was not     *)
(* closed.  Sizes are scaled down: a header has H cells, a padding P cells, *)
(* and writing is interrupted between any two cells.                        *)
(* BUG selects a variant with a defect, but temporary and lateindex are      *)
(* different ways to do it right.                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS BUG, MAXOPS, MAXLEN, FAULTS
VARIABLES files,    \* content by name: data d and index i, with schemas
          pos,      \* positions of the streams
          written,  \* data written successfully
          kind,     \* the operation on the resource: set or vec, or mv, if it is a multivector
          phase, todo, \* of the operation; calls which are left
          pending,  \* data in the buffer
          goal,     \* content to be written
          allowed,  \* contents which may be found
          handles,  \* open handles
          fired,    \* number of calls which failed
          result, dropped, nops
vars == <<files, pos, written, kind, phase, todo, pending, goal, allowed, handles, fired, result, dropped, nops>>
H == 2
P == 2
MAX == <<9, 9>>
Header(n) == <<n % 4, n \div 4>>
Size(b) == b[1] + 4 * b[2]
Zeros(n) == [k \in 1..n |-> 0]
None == <<-1>>
SCHEMA == <<7, 7>>
DATA == {"d", "i"}
SchemaOf(f) == IF f \in {"d", "t"} THEN "ds" ELSE "is"
NAMES == {"d", "ds", "i", "is", "t"}
CHUNKS == {<<1>>, <<2>>, <<1, 2, 1>>}
Entry(c) == <<Len(c)>>

-----------------------------------------------------------------------------
(* Readers *)
Readable(F, f) == /\ F[f] # None /\ Len(F[f]) >= H + P
                  /\ Size(F[f]) = Len(F[f]) - H - P
                  /\ F[SchemaOf(f)] = SCHEMA
Content(F, f) == SubSeq(F[f], H + 1, Len(F[f]) - P)
\* resource d, as multivector together with i
Found(F, multi) == IF ~ Readable(F, "d") \/ (multi /\ ~ Readable(F, "i")) THEN None
                   ELSE IF multi /\ Content(F, "i") # Entry(Content(F, "d")) THEN <<99>>
                   ELSE Content(F, "d")

-----------------------------------------------------------------------------
(* Calls *)
Call(c, f, x) == [c |-> c, f |-> f, x |-> x]
Fresh(f) == (IF files[f] = None \/ BUG = "inplace" THEN <<>> ELSE <<Call("unlink", f, <<>>)>>) \o <<Call("create", f, <<>>)>>
W(f, x) == <<Call("w", f, x)>>
WriteSchema(f) == Fresh(SchemaOf(f)) \o W(SchemaOf(f), SCHEMA)
WriteData(f, c) == Fresh(f) \o W(f, Header(Len(c))) \o W(f, c) \o W(f, Zeros(P))
SetCalls(c) == IF BUG = "temporary" THEN WriteData("t", c) \o <<Call("rename", "t", <<>>)>> \o WriteSchema("d")
               ELSE IF BUG = "schemafirst" THEN WriteSchema("d") \o WriteData("d", c)
               ELSE WriteData("d", c) \o WriteSchema("d")
First == IF BUG = "zero" THEN Header(0) ELSE MAX
StartCalls(f) == IF BUG = "schemabefore" THEN WriteSchema(f) \o Fresh(f) \o W(f, First)
                 ELSE Fresh(f) \o WriteSchema(f) \o W(f, First)
StartAll == IF kind # "mv" THEN StartCalls("d")
            ELSE IF BUG \in {"lateindex", "dataclosed"} THEN StartCalls("d") ELSE StartCalls("i") \o StartCalls("d")
FlushCalls == W("d", pending) \o <<Call("count", "d", pending)>>
              \o (IF BUG = "update" THEN <<Call("header", "d", <<>>), Call("end", "d", <<>>)>> ELSE <<>>)
CloseCalls(f) == IF BUG = "headerfirst" THEN <<Call("header", f, <<>>), Call("end", f, <<>>)>> \o W(f, Zeros(P))
                 ELSE W(f, Zeros(P)) \o <<Call("header", f, <<>>)>>
CloseAll == IF BUG = "dataclosed" /\ kind = "mv"
            THEN FlushCalls \o CloseCalls("d") \o StartCalls("i") \o W("i", Entry(goal)) \o <<Call("count", "i", Entry(goal))>> \o CloseCalls("i")
            ELSE
            (IF kind # "mv" THEN <<>>
             ELSE (IF BUG \in {"lateindex", "dataclosed"} THEN StartCalls("i") ELSE <<>>) \o W("i", Entry(goal)) \o <<Call("count", "i", Entry(goal))>>)
            \o FlushCalls
            \o (IF kind = "mv" THEN CloseCalls("i") ELSE <<>>) \o CloseCalls("d")
HandlesOf == IF kind = "mv" THEN {"d", "i"} ELSE {"d"}
Busy == phase \in {"setting", "starting", "flushing", "closing"}

At(b, p, v) == IF p < Len(b) THEN [b EXCEPT ![p + 1] = v] ELSE Append(b, v)
\* one step of the current call
Step ==
    /\ Busy /\ todo # <<>>
    /\ LET t == Head(todo)
           next == todo' = Tail(todo)
       IN CASE t.c = "unlink" -> files' = [files EXCEPT ![t.f] = None] /\ next /\ UNCHANGED <<pos, written>>
            [] t.c = "create" -> /\ files' = [files EXCEPT ![t.f] = IF BUG = "inplace" /\ @ # None THEN @ ELSE <<>>]
                                 /\ pos' = [pos EXCEPT ![t.f] = 0] /\ next /\ UNCHANGED written
            [] t.c = "rename" -> files' = [files EXCEPT !["d"] = files[t.f], ![t.f] = None] /\ next /\ UNCHANGED <<pos, written>>
            [] t.c = "count" -> written' = [written EXCEPT ![t.f] = @ + Len(t.x)] /\ next /\ UNCHANGED <<files, pos>>
            [] t.c = "header" -> /\ todo' = W(t.f, Header(IF BUG = "position" THEN Len(files[t.f]) - H - P ELSE written[t.f])) \o Tail(todo)
                                 /\ pos' = [pos EXCEPT ![t.f] = 0] /\ UNCHANGED <<files, written>>
            [] t.c = "end" -> pos' = [pos EXCEPT ![t.f] = Len(files[t.f])] /\ next /\ UNCHANGED <<files, written>>
            [] t.c = "w" -> IF t.x = <<>> THEN next /\ UNCHANGED <<files, pos, written>>
                            ELSE /\ files' = [files EXCEPT ![t.f] = At(@, pos[t.f], Head(t.x))]
                                 /\ pos' = [pos EXCEPT ![t.f] = @ + 1]
                                 \* short writes are completed
                                 /\ \/ todo' = <<[t EXCEPT !.x = Tail(@)]>> \o Tail(todo)
                                    \/ BUG = "short" /\ next
                                 /\ UNCHANGED written
    /\ UNCHANGED <<kind, phase, pending, goal, allowed, handles, fired, result, dropped, nops>>

\* the operation is over
Finish(r) == result' = r /\ phase' = "idle" /\ todo' = <<>>
Done ==
    /\ Busy /\ todo = <<>>
    /\ UNCHANGED <<files, pos, written, kind, goal, fired, dropped, nops>>
    /\ CASE phase = "setting" -> Finish("ok") /\ allowed' = {goal} /\ UNCHANGED <<pending, handles>>
         [] phase = "starting" -> phase' = "open" /\ handles' = HandlesOf /\ UNCHANGED <<todo, pending, allowed, result>>
         [] phase = "flushing" -> phase' = "open" /\ pending' = <<>> /\ UNCHANGED <<todo, allowed, handles, result>>
         [] phase = "closing" -> /\ handles' = {} /\ UNCHANGED pending
                                 /\ IF Readable(files, "d") /\ (kind = "mv" => Readable(files, "i"))
                                    THEN Finish("ok") /\ allowed' = {goal}
                                    ELSE Finish("err") /\ allowed' = allowed \cup {goal}
\* a call fails
Fail ==
    /\ fired < FAULTS /\ Busy /\ todo # <<>> /\ Head(todo).c # "count"
    /\ fired' = fired + 1
    /\ UNCHANGED <<files, pos, written, kind, pending, goal, dropped, nops>>
    /\ CASE phase = "setting" -> /\ Finish(IF BUG = "ignored" /\ Head(todo).f = "ds" THEN "ok" ELSE "err")
                                 /\ allowed' = allowed \cup {goal} /\ UNCHANGED handles
         [] phase = "starting" -> /\ Finish("err") /\ UNCHANGED allowed
                                  /\ handles' = IF BUG = "half" /\ kind = "mv" THEN {"i"} ELSE {}
         [] phase = "flushing" -> phase' = "open" /\ todo' = <<>> /\ UNCHANGED <<allowed, handles, result>>
         [] phase = "closing" -> /\ Finish("err") /\ allowed' = allowed \cup {goal}
                                 /\ handles' = IF BUG = "stuck" THEN handles ELSE {}
\* operations
Begin(k) == kind' = k /\ nops' = nops + 1 /\ pos' = [f \in NAMES |-> 0] /\ written' = [f \in DATA |-> 0]
            /\ pending' = <<>> /\ handles' = {} /\ dropped' = "none" /\ result' = "none" /\ fired' = 0
Set == /\ phase = "idle" /\ kind # "mv" /\ dropped # "no" /\ nops < MAXOPS
       /\ Begin("set") /\ phase' = "setting"
       /\ \E c \in CHUNKS \cup {<<>>} : goal' = c /\ todo' = SetCalls(c)
       /\ UNCHANGED <<files, allowed>>
Start == /\ phase = "idle" /\ dropped # "no" /\ nops < MAXOPS
         /\ Begin(IF kind = "mv" THEN "mv" ELSE "vec")
         /\ phase' = "ready" /\ goal' = <<>> /\ todo' = <<>>
         /\ UNCHANGED <<files, allowed>>
Ready == /\ phase = "ready" /\ phase' = "starting" /\ todo' = StartAll
         /\ UNCHANGED <<files, pos, written, kind, pending, goal, allowed, handles, fired, result, dropped, nops>>
Grow == /\ phase = "open" /\ Len(goal) < MAXLEN
        /\ \E c \in CHUNKS : goal' = goal \o c /\ pending' = pending \o c
        /\ UNCHANGED <<files, pos, written, kind, phase, todo, allowed, handles, fired, result, dropped, nops>>
Flush == /\ phase = "open" /\ pending # <<>>
         /\ phase' = "flushing" /\ todo' = FlushCalls
         /\ UNCHANGED <<files, pos, written, kind, pending, goal, allowed, handles, fired, result, dropped, nops>>
Close == /\ phase = "open"
         /\ phase' = "closing" /\ todo' = CloseAll
         /\ UNCHANGED <<files, pos, written, kind, pending, goal, allowed, handles, fired, result, dropped, nops>>
\* the writer is dropped while it is open, or after it was closed
PanicsOf(unwinding) == LET n == Cardinality(handles) IN
    IF n = 0 \/ BUG = "silent" THEN "silent"
    ELSE IF unwinding THEN (IF BUG = "double" THEN "abort" ELSE "silent")
    ELSE IF n = 2 /\ BUG = "double" THEN "abort" ELSE "panic"
Drop == /\ phase \in {"open", "idle"} /\ kind # "set" /\ dropped = "none"
        /\ \E u \in BOOLEAN : dropped' = (IF phase = "open" THEN "open:" ELSE "closed:") \o (IF u THEN "unwinding:" ELSE "normal:") \o PanicsOf(u)
        /\ phase' = "idle" /\ handles' = {}
        /\ UNCHANGED <<files, pos, written, kind, todo, pending, goal, allowed, fired, result, nops>>
Init == /\ files \in {[f \in NAMES |-> None],
                      \* an older version of the resource, or another one
                      [f \in NAMES |-> CASE f = "d" -> Header(1) \o <<2>> \o Zeros(P) [] f = "i" -> Header(1) \o <<1>> \o Zeros(P)
                                         [] f = "t" -> None [] OTHER -> SCHEMA],
                      [f \in NAMES |-> CASE f = "d" -> Header(1) \o <<2>> \o Zeros(P) [] f = "ds" -> <<8>> [] OTHER -> None]}
        /\ kind \in {"set", "mv"}
        /\ allowed = {Found(files, kind = "mv")} \ {None}
        /\ pos = [f \in NAMES |-> 0] /\ written = [f \in DATA |-> 0]
        /\ phase = "idle" /\ todo = <<>> /\ pending = <<>> /\ goal = <<>>
        /\ handles = {} /\ fired = 0 /\ result = "none" /\ dropped = "none" /\ nops = 0
Next == Step \/ Done \/ Fail \/ Set \/ Start \/ Ready \/ Grow \/ Flush \/ Close \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Done \/ Ready)
-----------------------------------------------------------------------------
(* Properties                                                               *)
Multi == kind = "mv"
\* C15
Interrupted == LET x == Found(files, Multi)
               IN x # None => x \in allowed \cup (IF phase \in {"setting", "closing"} THEN {goal} ELSE {})
\* C16
Reported == phase = "idle" /\ result = "ok" => Found(files, Multi) = goal
Needless == phase = "idle" /\ result = "err" => fired > 0
\* C17
Drops == dropped \in {"none", "open:normal:panic", "open:unwinding:silent", "closed:normal:silent", "closed:unwinding:silent"}
Closed == phase = "idle" /\ result # "none" => handles = {}
Terminates == [](Busy => <>(~ Busy))
=============================================================================
