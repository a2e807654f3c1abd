----------------------------- MODULE VectorGen ------------------------------
(* All transitions of two vectors with up to MAXLEN elements.               *)
EXTENDS Vector, GenIO
CONSTANTS NAME, VALUES, MAXLEN
Start == <<[op |-> "reset", d |-> "vec", s |-> NAME], [op |-> "new", r |-> 0, n |-> -1], [op |-> "new", r |-> 1, n |-> -2]>>
ASSUME EmitStart(Start)
R == 0..1
El(v) == [i \in 1..NumFields(NAME) |-> IF i = 1 THEN v ELSE 1]
Ops == {[op |-> "grow", r |-> r, v |-> El(v)] : r \in R, v \in VALUES}
   \cup {[op |-> "new", r |-> r, n |-> n] : r \in R, n \in -1..MAXLEN}
   \cup {[op |-> "set", r |-> r, i |-> i, f |-> 0, v |-> v] : r \in R, i \in 0..MAXLEN, v \in VALUES}
   \cup {[op |-> "at", r |-> r, i |-> i] : r \in R, i \in 0..MAXLEN}
   \cup {[op |-> "reserve", r |-> r, n |-> n] : r \in R, n \in {0, 1, 2}}
   \cup {[op |-> "clone", r |-> r, q |-> q] : r \in R, q \in R}
   \cup {[op |-> "copy", r |-> r, q |-> q, i |-> i, j |-> j] : r \in R, q \in R, i \in 0..(MAXLEN - 1), j \in 0..(MAXLEN - 1)}
Fine(o) == o.op = "copy" => /\ o.r # o.q
                            /\ o.i < Len(regs[o.r + 1].els)
                            /\ o.j < Len(regs[o.q + 1].els)
GInit == s = NAME /\ regs = <<Vec(<<>>, 0), Vec(<<>>, 0)>> /\ obs = [k |-> "ok"]
GNext == \E o \in Ops :
           /\ Fine(o)
           /\ Do(o)
           /\ \A r \in 1..2 : Len(regs'[r].els) <= MAXLEN /\ regs'[r].cap <= MAXLEN + 1
           /\ EmitStep(regs, o, regs')
GSpec == GInit /\ [][GNext]_vars
View == regs
\* operations on a vector change this one only
Independent == [][Cardinality({r \in 1..2 : regs[r].els # regs'[r].els}) <= 1]_vars
\* lengths change by grow, new and clone only, and never shrink otherwise
Consistent == \A r \in 1..2 : regs[r].cap >= Len(regs[r].els)
=============================================================================
