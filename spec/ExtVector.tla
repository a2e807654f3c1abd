------------------------------ MODULE ExtVector -----------------------------
(* External vectors: elements are added and leave for the storage.          *)
(* Property C06.                                                            *)
EXTENDS Elements, Numbers
VARIABLES s,       \* layout of the elements
          schema,  \* schema of the resource which is written; "" before
          open,    \* between creation and closing
          runs,    \* elements added: <<number of times, element>>
          obs
vars == <<s, schema, open, runs, obs>>

RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[1] + Total(Tail(rs))
\* first n elements
RECURSIVE FirstOf(_, _)
FirstOf(rs, n) == IF rs = <<>> \/ n = 0 THEN <<>>
                ELSE LET k == Min2(Head(rs)[1], n)
                     IN [i \in 1..k |-> Head(rs)[2]] \o FirstOf(Tail(rs), n - k)
\* non-zero bytes; most elements of long runs are zero
RECURSIVE SparseRuns(_, _)
SparseRuns(rs, at) ==
    IF rs = <<>> THEN <<>>
    ELSE LET n == Head(rs)[1]
             e == SparseEl(s, Head(rs)[2], 0)
         IN (IF e = <<>> THEN <<>> ELSE FlattenSeq([i \in 1..n |-> Shift(e, at + (i - 1) * SizeOf(s))]))
            \o SparseRuns(Tail(rs), at + n * SizeOf(s))
Bytes == [n |-> Total(runs) * SizeOf(s), nz |-> SparseRuns(runs, 0)]

Reset(n) == s' = n /\ schema' = "" /\ open' = FALSE /\ runs' = <<>> /\ obs' = [k |-> "ok"]
\* creating again replaces the resource; it cannot be read until it is closed
Create(x) == /\ ~ open
             /\ open' = TRUE /\ schema' = x /\ runs' = <<>>
             /\ UNCHANGED s
             /\ obs' = [k |-> "created", read |-> "err"]
Grow(n, v) == /\ open
              /\ runs' = IF n = 0 THEN runs ELSE Append(runs, <<n, StoredEl(s, v)>>)
              /\ UNCHANGED <<s, schema, open>>
              /\ obs' = [k |-> "grown", zero |-> TRUE, len |-> Total(runs'), empty |-> Total(runs') = 0,
                         open |-> TRUE, read |-> "err"]
Close == /\ open
         /\ open' = FALSE
         /\ UNCHANGED <<s, schema, runs>>
         /\ obs' = [k |-> "view", len |-> Total(runs), n |-> Total(runs), el |-> FirstOf(runs, 2000), raw |-> Framed(Bytes),
                    sch |-> schema, eqvec |-> TRUE, again |-> TRUE]
\* C20
Debug == /\ open
         /\ UNCHANGED <<s, schema, open, runs>>
         /\ obs' = [k |-> "dbg", s |-> "ExternalVector { len: " \o DecimalU(FromInt(Total(runs))) \o " }"]

-----------------------------------------------------------------------------
(* Vectors of more than 2^32 elements or bytes; only the first elements and *)
(* the last one are compared                                                *)
RECURSIVE WideTotal(_)
WideTotal(rs) == IF rs = <<>> THEN Small(0) ELSE Plus(Small(Head(rs)[1]), WideTotal(Tail(rs)))
WideGrow(n, v) == /\ open
                  /\ runs' = Append(runs, <<n, StoredEl(s, v)>>)
                  /\ UNCHANGED <<s, schema, open>>
                  /\ obs' = [k |-> "grown", len |-> Eight(WideTotal(runs'))]
WideClose == /\ open
             /\ open' = FALSE
             /\ UNCHANGED <<s, schema, runs>>
             /\ LET n == WideTotal(runs)
                    size == Times(n, SizeOf(s))
                IN obs' = [k |-> "wview", n |-> Eight(n), el |-> FirstOf(runs, 1000), last |-> runs[Len(runs)][2],
                           hdr |-> Eight(size), total |-> Eight(Plus(size, Small(16))), read |-> Eight(size)]

Do(o) == CASE o.op = "reset" -> Reset(o.s)
           [] o.op = "create" -> Create(o.schema)
           [] o.op = "grow" -> Grow(o.rep, Over(o.v, o.v0))
           [] o.op = "close" -> Close
           [] o.op = "biggrow" -> WideGrow(o.rep, o.v)
           [] o.op = "bigclose" -> WideClose
           [] o.op = "dbg" -> Debug
Init == s = "V1" /\ schema = "" /\ open = FALSE /\ runs = <<>> /\ obs = [k |-> "ok"]
=============================================================================
