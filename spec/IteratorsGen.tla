---------------------------- MODULE IteratorsGen ----------------------------
(* All interleavings of steps of two iterators over a view of N elements.   *)
EXTENDS Iterators, GenIO
CONSTANTS KIND, NAME, N
BaseEl(i) == IF KIND = "av" THEN [f \in 1..NumFields(NAME) |-> 10 * i + f]
             ELSE [j \in 1..(i % 3) |-> LET v == VariadicOf[NAME].variants[((i + j) % Len(VariadicOf[NAME].variants)) + 1]
                                        IN <<v[1], 10 * i + j>>]
Base == [i \in 1..N |-> BaseEl(i)]
Reset == [op |-> "reset", d |-> "iter", kind |-> KIND, s |-> NAME, el |-> Base, extra |-> 0]
ASSUME EmitStart(<<Reset, [op |-> "iter", r |-> 0, how |-> "iter"], [op |-> "iter", r |-> 1, how |-> "ref"]>>)
Ops == {[op |-> p, r |-> r] : p \in {"next", "back", "len"}, r \in 0..1}
  \cup {[op |-> p, r |-> r, n |-> n] : p \in {"nth", "nthb"}, r \in 0..1, n \in 0..(N + 1)}
  \cup {[op |-> "clone", r |-> 0, q |-> 1], [op |-> "clone", r |-> 1, q |-> 0]}
  \cup {[op |-> "iter", r |-> 0, how |-> "into"]}
BigOps == {[op |-> p, r |-> r, n |-> "max", big |-> TRUE] : p \in {"nth", "nthb"}, r \in 0..1}
GInit == /\ s = NAME /\ kind = KIND
         /\ src = Stored(Reset)
         /\ regs = [r \in 1..2 |-> [k |-> KIND, q |-> src]]
         /\ obs = [k |-> "ok"]
Step(o) == Do(o) /\ EmitStep(regs, o, regs')
GNext == (\E o \in Ops : Step(o)) \/ (\E o \in BigOps : Step(o))
GSpec == GInit /\ [][GNext]_vars
View == regs
\* the remaining elements are a contiguous part of the elements
Part == \A r \in 1..2 : \E a \in 0..N : \E b \in a..N : regs[r].q = SubSeq(src, a + 1, b)
\* what was taken and what remains is what there was; the other iterator is not affected
Partition == [][\A r \in 1..2 : (regs[r].q # regs'[r].q /\ obs'.k = "opt" /\ obs'.v # <<>>) =>
                 /\ regs[3 - r] = regs'[3 - r]
                 /\ \E i \in 1..Len(regs[r].q) : regs[r].q[i] = obs'.v[1]
                 /\ Len(regs'[r].q) < Len(regs[r].q)]_vars
=============================================================================
