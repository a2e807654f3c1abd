------------------------------ MODULE Framing -------------------------------
(* When a stored resource is accepted, for files of any length and all      *)
(* 64-bit headers.  Files of at most n bytes of which anything may have     *)
(* been cut off, appended or replaced; Apalache checks all of them at once. *)
EXTENDS Integers
CONSTANTS
    \* @type: Str;
    BUG
VARIABLES
    \* length of the file
    \* @type: Int;
    length,
    \* its first eight bytes
    \* @type: Int;
    header,
    \* size which is returned, or -1
    \* @type: Int;
    got
W == 2^64
FRAME == 16
Wrapped(x) == x % W
Accepted == IF BUG = "wraps" THEN Wrapped(header + FRAME) = length
            ELSE IF BUG = "atleast" THEN length >= FRAME /\ header <= length - FRAME
            ELSE IF BUG = "half" THEN length >= FRAME /\ header % 2^32 = (length - FRAME) % 2^32
            ELSE length >= FRAME /\ header = length - FRAME
Result == IF Accepted THEN header ELSE -1
\* written with n bytes of data, or anything else
Init == \/ \E n \in Nat : n < 2^62 /\ length = n + FRAME /\ header = n /\ got = n
        \/ length \in Nat /\ length < 2^63 /\ header \in Nat /\ header < W /\ got = -1
\* the file is damaged and read
Next == \/ \E n, h \in Nat : n < 2^63 /\ h < W /\ length' = n /\ header' = h /\ got' = -1
        \/ UNCHANGED <<length, header>> /\ got' = Result
Safety == /\ got # -1 => got = length - FRAME /\ got = header
          /\ length >= FRAME /\ header = length - FRAME => Result = length - FRAME
Ind == 0 <= length /\ length < 2^63 /\ 0 <= header /\ header < W /\ Safety
Any == length \in Int /\ header \in Int /\ got \in Int /\ Ind
\* there are such states
Nothing == ~(got > 1000)
CInit == BUG = "none"
CWraps == BUG = "wraps"
CAtleast == BUG = "atleast"
CHalf == BUG = "half"
=============================================================================
