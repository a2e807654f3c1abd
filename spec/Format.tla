------------------------------- MODULE Format -------------------------------
(* Stored resources: the frame of the data, schemas, the outcome of reading *)
(* and the explanation of differences.  Properties C10, C11 and C19.        *)
EXTENDS Layouts
\* the size as 8 bytes, the data and the padding
Frame(b) == FromInt(Len(b)) \o b \o Zeros(8)

\* whether bytes are UTF-8, i from 1
Cont(b, i, lo, hi) == i <= Len(b) /\ b[i] >= lo /\ b[i] <= hi
\* number of bytes of a character by its first byte, 0 if there is none
Size(c) == CASE c < 128 -> 1
             [] c >= 194 /\ c <= 223 -> 2
             [] c >= 224 /\ c <= 239 -> 3
             [] c >= 240 /\ c <= 244 -> 4
             [] OTHER -> 0
Character(b, i) ==
    LET c == b[i] IN
    CASE Size(c) = 1 -> TRUE
      [] Size(c) = 2 -> Cont(b, i + 1, 128, 191)
      [] Size(c) = 3 -> /\ Cont(b, i + 1, IF c = 224 THEN 160 ELSE 128, IF c = 237 THEN 159 ELSE 191)
                        /\ Cont(b, i + 2, 128, 191)
      [] Size(c) = 4 -> /\ Cont(b, i + 1, IF c = 240 THEN 144 ELSE 128, IF c = 244 THEN 143 ELSE 191)
                        /\ Cont(b, i + 2, 128, 191) /\ Cont(b, i + 3, 128, 191)
      [] OTHER -> FALSE
\* each byte is the first one of a character or belongs to the one before
Utf8(b) == \A i \in DOMAIN b :
    IF b[i] >= 128 /\ b[i] <= 191 THEN \E k \in 1..3 : i > k /\ Size(b[i - k]) > k
    ELSE Character(b, i)

\* difference of integers given as 8 bytes, a >= b
RECURSIVE Minus(_, _, _)
Minus(a, b, borrow) == IF a = <<>> THEN <<>>
                       ELSE LET x == Head(a) - Head(b) - borrow
                            IN <<x % 256>> \o Minus(Tail(a), Tail(b), IF x < 0 THEN 1 ELSE 0)
\* whether a resource with this length and header has the size which its header says; all are 8 bytes
Atleast16(len) == \E i \in 1..8 : IF i = 1 THEN len[1] >= 16 ELSE len[i] > 0
SizeFits(len, header) == Atleast16(len) /\ header = Minus(len, FromInt(16), 0)

\* kinds of errors, in the order in which they are found
Kind(hasData, hasSchema, len, header, schema, expected) ==
    IF ~ hasData \/ ~ hasSchema THEN "io"
    ELSE IF ~ SizeFits(len, header) THEN "size"
    ELSE IF ~ Utf8(schema) THEN "utf8"
    ELSE IF schema # expected THEN "sig"
    ELSE "ok"

-----------------------------------------------------------------------------
(* Lines of a text, separated by newlines (carriage returns before it, or   *)
(* at the end of the text, do not belong to the line: a difference with     *)
(* lines of its own cannot show them), and differences of texts.  It is not specified whether   *)
(* an empty text has no line or an empty one.                               *)
Split(b) ==
    LET NewLine(i) == b[i] = 10
        ends == SelectSeq([i \in 1..Len(b) |-> i], NewLine)
        From(k) == IF k = 1 THEN 1 ELSE ends[k - 1] + 1
        To(k) == IF k > Len(ends) THEN Len(b)
                 ELSE ends[k] - 1
        \* the last position which is not a carriage return
        RECURSIVE Stop(_, _)
        Stop(from, to) == IF to >= from /\ b[to] = 13 THEN Stop(from, to - 1) ELSE to
    IN [k \in 1..(Len(ends) + 1) |-> SubSeq(b, From(k), Stop(From(k), To(k)))]
Lines(b) == IF b = <<>> THEN {<<>>, <<<<>>>>} ELSE {Split(b)}
Tails(ls) == [i \in 1..Len(ls) |-> Tail(ls[i])]
Starts(ls, chars) == SelectSeq(ls, LAMBDA x : x[1] \in chars)
BLANK == 32
MINUS == 45
PLUS == 43
\* the lines of a diff with these prefixes, without the prefix
Side(d, chars) == Tails(Starts(d, chars))
DiffOf(d, stored, expected) ==
    /\ \A i \in DOMAIN d : d[i] # <<>> /\ d[i][1] \in {BLANK, MINUS, PLUS}
    /\ Side(d, {BLANK, MINUS}) \in Lines(stored)
    /\ Side(d, {BLANK, PLUS}) \in Lines(expected)
    \* differences in lines are shown
    /\ (Lines(stored) \cap Lines(expected) = {}) => Starts(d, {MINUS, PLUS}) # <<>>
\* no lines at all are an empty text
DiffOk(diff, stored, expected) == DiffOf(Split(diff), stored, expected) \/ (diff = <<>> /\ DiffOf(<<>>, stored, expected))
=============================================================================
