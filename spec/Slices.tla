------------------------------- MODULE Slices -------------------------------
(* How array views are accessed, sliced and iterated, in bytes and with     *)
(* 64-bit numbers which wrap around (or panic, if CHECKED), for data of any *)
(* size.  Apalache proves the invariant Ind to be inductive, so every       *)
(* access of every slice of every slice is decided: it yields exactly the   *)
(* requested elements or panics, for all usize values.                      *)
EXTENDS Integers
CONSTANTS
    \* size of an element
    \* @type: Int;
    S,
    \* size of the data, which may have a rest smaller than an element
    \* @type: Int;
    D,
    \* overflows panic
    \* @type: Bool;
    CHECKED,
    \* @type: Str;
    BUG
VARIABLES
    \* the view: bytes a .. b - 1 of the data
    \* @type: Int;
    a,
    \* @type: Int;
    b,
    \* what it should be: elements p .. q - 1
    \* @type: Int;
    p,
    \* @type: Int;
    q,
    \* whether the last access had the result it should have
    \* @type: Bool;
    right
vars == <<a, b, p, q, right>>
W == 2^64
HALF == 2^63
Usize(x) == 0 <= x /\ x < W
Init == a = 0 /\ b = D /\ p = 0 /\ q = D \div S /\ right = TRUE

\* numbers or the panic -1
Wrapped(x) == IF x < W THEN x ELSE IF CHECKED THEN -1 ELSE x % W
Add1(x) == IF BUG = "wraps" THEN Wrapped(x + 1) ELSE IF x + 1 < W THEN x + 1 ELSE -1
ViewLen == (b - a) \div S
DataIndex(i) == IF i = -1 THEN -1
                ELSE IF i <= ViewLen \/ BUG = "unchecked" THEN Wrapped(i * S) ELSE -1

\* kinds of bounds: "i" included, "e" excluded, "u" unbounded
Start(k, x) == IF k = "u" THEN 0 ELSE IF k = "i" THEN DataIndex(x) ELSE DataIndex(Add1(x))
End(k, x) == IF k = "u" THEN b - a ELSE IF k = "e" THEN DataIndex(x) ELSE DataIndex(Add1(x))
\* the requested elements
From(k, x) == IF k = "u" THEN 0 ELSE IF k = "i" THEN x ELSE x + 1
To(k, x) == IF k = "u" THEN q - p ELSE IF k = "e" THEN x ELSE x + 1
Slice(k, x, m, y) ==
    LET s == Start(k, x)
        e == End(m, y)
        panics == s = -1 \/ e = -1 \/ s > e \/ e > b - a
        f == From(k, x)
        t == To(m, y)
        defined == f <= t /\ t <= q - p
    IN IF panics \/ ~defined
       THEN right' = (panics /\ ~defined) /\ UNCHANGED <<a, b, p, q>>
       ELSE /\ a' = a + s /\ b' = a + e
            /\ p' = p + f /\ q' = p + t
            /\ right' = TRUE
At(i) ==
    LET x == DataIndex(i)
        panics == x = -1 \/ (x + S > b - a /\ BUG # "end")
    IN /\ right' = ((panics /\ i >= q - p) \/ (~panics /\ i < q - p /\ a + x = (p + i) * S))
       /\ UNCHANGED <<a, b, p, q>>
\* iterators are views which become smaller
Front == IF ViewLen = 0
         THEN right' = (p = q) /\ UNCHANGED <<a, b, p, q>>
         ELSE /\ right' = (p < q /\ a = p * S)
              /\ a' = a + S /\ p' = p + 1
              /\ UNCHANGED <<b, q>>
Back == IF ViewLen = 0
        THEN right' = (p = q) /\ UNCHANGED <<a, b, p, q>>
        ELSE LET last == IF BUG = "rest" THEN b - a - S ELSE (ViewLen - 1) * S
             IN /\ right' = (p < q /\ a + last = (q - 1) * S)
                /\ b' = a + last /\ q' = q - 1
                /\ UNCHANGED <<a, p>>
Next == \/ \E k, m \in {"i", "e", "u"} : \E x, y \in Nat : Usize(x) /\ Usize(y) /\ Slice(k, x, m, y)
        \/ \E i \in Nat : Usize(i) /\ At(i)
        \/ Front \/ Back
Spec == Init /\ [][Next]_vars

Safety == right /\ ViewLen = q - p
Ind == /\ right
       /\ 0 <= p /\ p <= q /\ q <= D \div S
       /\ a = p * S
       /\ q * S <= b /\ b < (q + 1) * S /\ b <= D
Any == /\ a \in Int /\ b \in Int /\ p \in Int /\ q \in Int /\ right \in BOOLEAN
       /\ Ind
\* there are such states
Nothing == ~(D > 1000 /\ p = 5 /\ q = 9)
Size == D \in Nat /\ D < HALF /\ CHECKED \in BOOLEAN
CInit == S \in {1, 3, 8, 1000003} /\ Size /\ BUG = "none"
CWraps == S \in {1, 3} /\ Size /\ BUG = "wraps"
CUnchecked == S \in {1, 3} /\ Size /\ BUG = "unchecked"
CEnd == S \in {1, 3} /\ Size /\ BUG = "end"
CRest == S \in {1, 3} /\ Size /\ BUG = "rest"
=============================================================================
