------------------------------ MODULE ViewsGen ------------------------------
(* All slices of all slices of a view of N elements.                        *)
EXTENDS Views, GenIO
CONSTANTS KIND, NAME, N
BaseEl(i) == IF KIND = "av" THEN [f \in 1..NumFields(NAME) |-> 10 * i + f]
             ELSE [j \in 1..(i % 3) |-> LET v == VariadicOf[NAME].variants[((i + j) % Len(VariadicOf[NAME].variants)) + 1]
                                        IN <<v[1], 10 * i + j>>]
Base == [i \in 1..N |-> BaseEl(i)]
All == [op |-> "slice", r |-> 0, q |-> 1, sk |-> "unb", s |-> 0, ek |-> "unb", e |-> 0, tuple |-> FALSE]
Reset == [op |-> "reset", d |-> "view", kind |-> KIND, s |-> NAME, el |-> Base, extra |-> 0]
ASSUME EmitStart(<<Reset, All>>)
BigNames == {"max", "max-1", "half", "wrap", "wrap+1", "iwrap", "i32"}
K == {"inc", "exc", "unb"}
Mk(r, sk, a, abig, ek, b, bbig, t) ==
    [op |-> "slice", r |-> r, q |-> 1, sk |-> sk, s |-> a, sbig |-> abig, ek |-> ek, e |-> b, ebig |-> bbig, tuple |-> t]
\* indices which matter for a view of n elements; unbounded ends have no index
Idx(k, n) == IF k = "unb" THEN {0} ELSE 0..(n + 2)
Small1(n) == UNION {{Mk(1, sk, a, FALSE, ek, b, FALSE, t) : a \in Idx(sk, n), b \in Idx(ek, n)} : sk \in K, ek \in K, t \in BOOLEAN}
             \cup {Mk(0, "inc", a, FALSE, "exc", b, FALSE, FALSE) : a \in 0..N, b \in 0..N}
SmallAt(n) == {[op |-> p, r |-> 1, i |-> i] : i \in 0..(n + 2), p \in {"at", "atq"}}
BigAt == {[op |-> p, r |-> 1, i |-> i, big |-> TRUE] : i \in BigNames, p \in {"at", "atq"}}
BigStart(n) == UNION {{Mk(1, sk, a, TRUE, ek, b, FALSE, FALSE) : a \in BigNames, b \in Idx(ek, n)} : sk \in {"inc", "exc"}, ek \in K}
BigEnd(n) == UNION {{Mk(1, sk, a, FALSE, ek, b, TRUE, FALSE) : b \in BigNames, a \in Idx(sk, n)} : ek \in {"inc", "exc"}, sk \in K}
BigBoth == {Mk(1, sk, x, TRUE, ek, x, TRUE, FALSE) : sk \in {"inc", "exc"}, ek \in {"inc", "exc"}, x \in BigNames}
GInit == /\ s = NAME /\ multi = (KIND # "av")
         /\ regs = [r \in 1..2 |-> [els |-> [i \in 1..N |-> El(IF multi THEN [j \in 1..Len(Base[i]) |-> StoredItem(NAME, Base[i][j])]
                                                            ELSE StoredEl(NAME, Base[i]))], extra |-> 0]]
         /\ obs = [k |-> "ok"]
Step(o) == Do(o) /\ EmitStep(regs[2].els, o, regs'[2].els)
GNext == LET n == Len(regs[2].els) IN
         \/ \E o \in Small1(n) : Step(o)
         \/ \E o \in SmallAt(n) : Step(o)
         \/ \E o \in BigAt : Step(o)
         \/ \E o \in BigStart(n) : Step(o)
         \/ \E o \in BigEnd(n) : Step(o)
         \/ \E o \in BigBoth : Step(o)
GSpec == GInit /\ [][GNext]_vars
View == regs
\* every view is a contiguous part of the first one, and a panic changes nothing
Part(x) == \E a \in 0..N : \E b \in a..N : x.els = SubSeq(regs[1].els, a + 1, b)
Parts2 == \A r \in 1..2 : Part(regs[r])
NoChange == [][obs'.k = "panic" => regs' = regs]_vars
=============================================================================
