------------------------------- MODULE Buffer -------------------------------
(* Writing through a buffer, for data, elements, buckets, limits and        *)
(* paddings of any size: the invariant Ind is proved to be inductive by     *)
(* Apalache, so it holds for all of them.  What is written is described by  *)
(* positions: the data grown so far are the bytes 0 .. total - 1, of which  *)
(* the buffer contains lo .. hi - 1.  TLC checks that ExtImpl and MvImpl    *)
(* are instances.  Writing may fail after any number of bytes.              *)
EXTENDS Integers
CONSTANTS
    \* @type: Int;
    PAD,
    \* @type: Int;
    LIMIT,
    \* the largest start which an entry of the index can store
    \* @type: Int;
    MAX,
    \* @type: Str;
    BUG
VARIABLES
    \* @type: Int;
    total,
    \* @type: Int;
    lo,
    \* @type: Int;
    hi,
    \* bytes which were reported to be written
    \* @type: Int;
    written,
    \* length of the file, without its header
    \* @type: Int;
    file,
    \* the file consists of exactly the written bytes
    \* @type: Bool;
    clean,
    \* size in the header; -1: none, so that the file cannot be read
    \* @type: Int;
    header,
    \* size of the current bucket (of the last element) and of the largest one
    \* @type: Int;
    cur,
    \* @type: Int;
    largest,
    \* start of the last bucket, as computed
    \* @type: Int;
    start,
    \* start of the last bucket
    \* @type: Int;
    begin,
    \* all entries of the index are as computed
    \* @type: Bool;
    exact,
    \* @type: Str;
    phase
vars == <<total, lo, hi, written, file, clean, header, cur, largest, start, begin, exact, phase>>

Init ==
    /\ total = 0 /\ lo = 0 /\ hi = 0 /\ written = 0 /\ file = 0 /\ clean = TRUE /\ header = -1
    /\ cur = 0 /\ largest = 0 /\ start = 0 /\ begin = 0 /\ exact = TRUE /\ phase = "open"

More(a, b) == IF a > b THEN a ELSE b
Buffered == hi - lo + PAD
Full == IF BUG = "never" THEN FALSE ELSE Buffered > LIMIT
\* The buffer is written if it is full (else this is the identity), and n bytes are added to it.
Grow(n) ==
    /\ phase = "open" /\ n >= 0
    /\ IF Full
       THEN /\ lo' = hi
            /\ written' = IF BUG = "last" THEN hi - lo ELSE written + (hi - lo)
            /\ file' = file + (hi - lo)
       ELSE UNCHANGED <<lo, written, file>>
    /\ total' = total + n
    /\ hi' = hi + n
    /\ begin' = total
    /\ start' = (IF BUG = "start" THEN 0 ELSE written') + (hi - lo')
    /\ exact' = (exact /\ total <= MAX)
    /\ cur' = n
    /\ largest' = More(largest, n)
    /\ UNCHANGED <<clean, header, phase>>
\* An item is added to the last bucket
Add(n) ==
    /\ phase = "open" /\ n >= 0
    /\ total' = total + n
    /\ hi' = hi + n
    /\ cur' = cur + n
    /\ largest' = More(largest, cur + n)
    /\ UNCHANGED <<lo, written, file, clean, header, start, begin, exact, phase>>
\* Writing the buffer fails after k bytes: nothing is added, and the buffer is kept
Fail(k) ==
    /\ phase = "open" /\ 0 <= k /\ k <= hi - lo
    /\ file' = file + k
    /\ clean' = (clean /\ k = 0)
    /\ written' = IF BUG = "partial" THEN written + k ELSE written
    /\ lo' = IF BUG = "dropped" THEN hi ELSE lo
    /\ UNCHANGED <<total, hi, header, cur, largest, start, begin, exact, phase>>
Close ==
    /\ phase = "open"
    /\ total <= MAX \/ BUG = "narrow"
    /\ lo' = hi
    /\ written' = written + (hi - lo)
    /\ file' = file + (hi - lo) + PAD
    /\ header' = written'
    /\ exact' = (exact /\ total <= MAX)
    /\ phase' = "closed"
    /\ UNCHANGED <<total, hi, clean, cur, largest, start, begin>>
\* Closing may fail anywhere; then there is no header
CloseFails(k) ==
    /\ phase = "open"
    /\ 0 <= k /\ k <= hi - lo + PAD
    /\ file' = file + k
    /\ phase' = "failed"
    /\ clean' = FALSE
    /\ UNCHANGED <<total, lo, hi, written, header, cur, largest, start, begin, exact>>
Next == \/ \E n \in Nat : Grow(n) \/ Add(n) \/ Fail(n)
        \/ Close \/ \E k \in Nat : CloseFails(k)
Spec == Init /\ [][Next]_vars

\* C16, C22, C06, C07
Readable == header >= 0 /\ header = file - PAD
Safety ==
    /\ Readable => phase = "closed" /\ clean /\ header = total
    /\ phase = "closed" /\ clean => Readable
    /\ Buffered <= LIMIT + largest
    /\ start = begin
    /\ phase = "closed" => exact

Ind ==
    /\ phase \in {"open", "closed", "failed"}
    /\ 0 <= lo /\ lo <= hi /\ hi = total /\ lo = written
    /\ IF phase = "open" THEN (IF clean THEN file = written ELSE file > written) /\ header = -1
       ELSE IF phase = "closed" THEN (IF clean THEN file = written + PAD ELSE file > written + PAD) /\ header = written /\ lo = hi /\ total <= MAX
       ELSE header = -1
    /\ 0 <= cur /\ cur <= largest
    /\ Buffered <= LIMIT + cur
    /\ start = begin
    /\ exact \/ total > MAX
\* any state
Any ==
    /\ total \in Int /\ lo \in Int /\ hi \in Int /\ written \in Int /\ file \in Int /\ clean \in BOOLEAN /\ header \in Int
    /\ cur \in Int /\ largest \in Int /\ start \in Int /\ begin \in Int /\ exact \in BOOLEAN
    /\ phase \in {"open", "closed", "failed"}
    /\ Ind
\* there are such states
Nothing == ~(total > 1000 /\ lo = 500 /\ cur > 300)
CInit == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "none"
CNever == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "never"
CLast == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "last"
CStart == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "start"
CPartial == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "partial"
CDropped == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "dropped"
CNarrow == PAD \in Nat /\ LIMIT \in Nat /\ MAX \in Nat /\ PAD > 0 /\ PAD <= LIMIT /\ BUG = "narrow"
=============================================================================
