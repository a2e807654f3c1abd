------------------------------- MODULE Growth -------------------------------
(* How vectors allocate, with 64-bit numbers: elements are appended to a    *)
(* block of some capacity, which is replaced by another one only if it is   *)
(* too small.  Apalache proves Ind to be inductive: after space for n more  *)
(* elements was reserved, the next n of them do not move the data, and      *)
(* sizes which overflow are refused, for all lengths and sizes.             *)
EXTENDS Integers
CONSTANTS
    \* size of an element
    \* @type: Int;
    S,
    \* @type: Int;
    PAD,
    \* overflows panic
    \* @type: Bool;
    CHECKED,
    \* @type: Str;
    BUG
VARIABLES
    \* bytes, with padding
    \* @type: Int;
    size,
    \* @type: Int;
    capacity,
    \* number of elements
    \* @type: Int;
    len,
    \* elements for which space was reserved
    \* @type: Int;
    promised,
    \* the data were moved although space had been reserved
    \* @type: Bool;
    broken
vars == <<size, capacity, len, promised, broken>>
W == 2^64
HALF == 2^63
Wrapped(x) == IF 0 <= x /\ x < W THEN x ELSE IF CHECKED THEN -1 ELSE x % W
\* calc_size: the size of n elements, or a panic
CalcSize(n) == IF BUG = "wraps" THEN IF Wrapped(n * S) = -1 THEN -1 ELSE Wrapped(Wrapped(n * S) + PAD)
               ELSE IF n * S + PAD < W THEN n * S + PAD ELSE -1
\* blocks of more than half of the address space do not exist
WithLen(n) == /\ CalcSize(n) # -1 /\ CalcSize(n) < HALF
              /\ size' = CalcSize(n)
              /\ \E c \in Nat : c >= size' /\ c < HALF /\ capacity' = c
              /\ len' = n
              /\ promised' = 0
              /\ UNCHANGED broken
Init == size = PAD /\ capacity = PAD /\ len = 0 /\ promised = 0 /\ broken = FALSE
Grow == /\ size + S < HALF
        /\ size' = size + S
        /\ len' = len + 1
        /\ IF size + S <= capacity
           THEN UNCHANGED <<capacity, broken>>
           ELSE /\ \E c \in Nat : c >= size + S /\ c < HALF /\ capacity' = c
                /\ broken' = (broken \/ promised > 0)
        /\ promised' = IF promised > 0 THEN promised - 1 ELSE 0
\* as of Vec: at least the additional bytes, or a panic
Reserve(n) ==
    LET more == IF BUG = "total" THEN CalcSize(n) - (size - PAD) ELSE CalcSize(len + n) - (size - PAD)
        bytes == IF BUG = "total" /\ more < 0 THEN 0 ELSE more
    IN /\ len + n < W
       /\ CalcSize(len + n) # -1 /\ CalcSize(n) # -1
       /\ size + bytes < HALF
       /\ IF size + bytes <= capacity
          THEN UNCHANGED capacity
          ELSE \E c \in Nat : c >= size + bytes /\ c < HALF /\ capacity' = c
       /\ promised' = IF n > promised THEN n ELSE promised
       /\ UNCHANGED <<size, len, broken>>
Next == \/ Grow
        \/ \E n \in Nat : n < W /\ (WithLen(n) \/ Reserve(n))
Spec == Init /\ [][Next]_vars
Safety == ~broken /\ size = len * S + PAD
Ind == /\ ~broken
       /\ 0 <= len /\ 0 <= promised
       /\ size = len * S + PAD /\ size < HALF /\ size <= capacity
       /\ (len + promised) * S + PAD <= capacity
Any == /\ size \in Int /\ capacity \in Int /\ len \in Int /\ promised \in Int /\ broken \in BOOLEAN
       /\ Ind
\* there are such states
Nothing == ~(len > 1000 /\ promised > 7 /\ capacity > 10 * size)
Size == PAD = 8 /\ CHECKED \in BOOLEAN
CInit == S \in {1, 3, 16, 1000003} /\ Size /\ BUG = "none"
CWraps == S \in {3, 16} /\ Size /\ BUG = "wraps"
CTotal == S \in {3, 16} /\ Size /\ BUG = "total"
=============================================================================
