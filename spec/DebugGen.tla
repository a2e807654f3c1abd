------------------------------ MODULE DebugGen ------------------------------
(* Debug output of all parts of a sequence of N elements.                   *)
EXTENDS Iterators, GenIO
CONSTANTS KIND, NAME, N
BaseEl(i) == IF KIND = "av" THEN [f \in 1..NumFields(NAME) |-> 10 * i + f]
             ELSE [j \in 1..(i % 3) |-> LET v == VariadicOf[NAME].variants[((i + j) % Len(VariadicOf[NAME].variants)) + 1]
                                        IN <<v[1], 10 * i + j>>]
Base == [i \in 1..N |-> BaseEl(i)]
Reset == [op |-> "reset", d |-> "iter", kind |-> KIND, s |-> NAME, el |-> Base, extra |-> 0]
ASSUME EmitStart(<<Reset, [op |-> "iter", r |-> 0, how |-> "iter"]>>)
GInit == /\ s = NAME /\ kind = KIND
         /\ src = Stored(Reset)
         /\ regs = <<[k |-> KIND, q |-> src]>>
         /\ obs = [k |-> "ok"]
GNext == \E p \in {"next", "back", "dbg"} :
           LET o == [op |-> p, r |-> 0] IN Do(o) /\ EmitStep(regs, o, regs')
GSpec == GInit /\ [][GNext]_vars
View == regs
\* the ellipsis tells that elements are missing
Ellipsis == Len(First(regs[1].q, PREVIEW)) = Min2(Len(regs[1].q), PREVIEW)
=============================================================================
