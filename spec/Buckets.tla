------------------------------- MODULE Buckets ------------------------------
(* How views of multivectors are accessed, sliced and iterated by slices of *)
(* their index (whose accesses are those of Slices), with 64-bit numbers.   *)
(* Apalache proves that Ind is inductive, for an index of any length.       *)
EXTENDS Integers
CONSTANTS
    \* entries of the index
    \* @type: Int;
    N,
    \* @type: Str;
    BUG
VARIABLES
    \* the entries i .. j - 1 of the index belong to the view
    \* @type: Int;
    i,
    \* @type: Int;
    j,
    \* what it should be: buckets p .. q - 1
    \* @type: Int;
    p,
    \* @type: Int;
    q,
    \* whether the last access had the result it should have
    \* @type: Bool;
    right
vars == <<i, j, p, q, right>>
W == 2^64
Usize(x) == 0 <= x /\ x < W
Init == i = 0 /\ j = N /\ p = 0 /\ q = (IF N = 0 THEN 0 ELSE N - 1) /\ right = TRUE
ViewLen == IF j - i = 0 THEN IF BUG = "empty" THEN W - 1 ELSE 0 ELSE j - i - 1
Plus(x, n) == IF x + n < W THEN x + n ELSE IF BUG = "wraps" THEN (x + n) % W ELSE -1
Start(k, x) == IF k = "u" THEN 0 ELSE IF k = "i" THEN x ELSE Plus(x, 1)
End(k, x) == IF k = "u" THEN ViewLen + 1 ELSE IF k = "e" THEN Plus(x, 1) ELSE Plus(x, 2)
From(k, x) == IF k = "u" THEN 0 ELSE IF k = "i" THEN x ELSE x + 1
To(k, x) == IF k = "u" THEN q - p ELSE IF k = "e" THEN x ELSE x + 1
Min(x, y) == IF x < y THEN x ELSE y
Slice(k, x, m, y) ==
    LET s == Start(k, x)
        e == End(m, y)
        c == Min(e, j - i)
        refused == s = -1 \/ e = -1 \/ (IF BUG = "inverted" THEN s > e ELSE s >= e) \/ e > ViewLen + 1
        panics == refused \/ s > c
        f == From(k, x)
        t == To(m, y)
        defined == f <= t /\ t <= q - p
    IN IF panics \/ ~defined
       THEN right' = (panics /\ ~defined) /\ UNCHANGED <<i, j, p, q>>
       ELSE /\ i' = i + s /\ j' = i + c
            /\ p' = p + f /\ q' = p + t
            /\ right' = TRUE
\* a bucket lies between two entries, or between the last one and the end of the data (-1)
At(x) ==
    LET panics == x >= j - i \/ (x + 1 >= j - i /\ BUG # "last")
    IN /\ right' = ((panics /\ x >= q - p) \/ (~panics /\ x < q - p /\ i + x = p + x /\ i + x + 1 < N))
       /\ UNCHANGED <<i, j, p, q>>
Front == IF ViewLen = 0
         THEN right' = (p = q) /\ UNCHANGED <<i, j, p, q>>
         ELSE right' = (p < q /\ i = p) /\ i' = i + 1 /\ p' = p + 1 /\ UNCHANGED <<j, q>>
Back == IF ViewLen = 0
        THEN right' = (p = q) /\ UNCHANGED <<i, j, p, q>>
        ELSE right' = (p < q /\ i + ViewLen - 1 = q - 1) /\ j' = i + ViewLen /\ q' = q - 1 /\ UNCHANGED <<i, p>>
Next == \/ \E k, m \in {"i", "e", "u"} : \E x, y \in Nat : Usize(x) /\ Usize(y) /\ Slice(k, x, m, y)
        \/ \E x \in Nat : Usize(x) /\ At(x)
        \/ Front \/ Back
Spec == Init /\ [][Next]_vars
Safety == right /\ ViewLen = q - p
Ind == /\ right
       /\ 0 <= p /\ p <= q /\ i = p
       /\ IF N = 0 THEN q = 0 /\ j = 0 ELSE q < N /\ j = q + 1
Any == /\ i \in Int /\ j \in Int /\ p \in Int /\ q \in Int /\ right \in BOOLEAN
       /\ Ind
Nothing == ~(N > 100 /\ p = 5 /\ q = 9)
Size == N \in Nat /\ N < 2^63
CInit == Size /\ BUG = "none"
CWraps == Size /\ BUG = "wraps"
CEmpty == Size /\ BUG = "empty"
CInverted == Size /\ BUG = "inverted"
CLast == Size /\ BUG = "last"
=============================================================================
