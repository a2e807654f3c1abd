------------------------------- MODULE Numbers ------------------------------
(* Natural numbers which exceed the integers of TLC: 9 bytes, the least     *)
(* significant first.                                                       *)
EXTENDS Bits
Num(b) == b \o <<0>>
Eight(x) == SubSeq(x, 1, 8)
Small(n) == Num(FromInt(n))
RECURSIVE AddC(_, _, _)
AddC(a, b, c) == IF a = <<>> THEN <<>>
                 ELSE LET x == Head(a) + Head(b) + c IN <<x % 256>> \o AddC(Tail(a), Tail(b), x \div 256)
Plus(a, b) == AddC(a, b, 0)
Succ(a) == Plus(a, Small(1))
RECURSIVE SubC(_, _, _)
SubC(a, b, c) == IF a = <<>> THEN <<>>
                 ELSE LET x == Head(a) - Head(b) - c IN <<x % 256>> \o SubC(Tail(a), Tail(b), IF x < 0 THEN 1 ELSE 0)
\* a >= b
Diff(a, b) == SubC(a, b, 0)
RECURSIVE MulC(_, _, _)
MulC(a, n, c) == IF a = <<>> THEN <<>>
                 ELSE LET x == Head(a) * n + c IN <<x % 256>> \o MulC(Tail(a), n, x \div 256)
RECURSIVE Times(_, _)
Times(a, n) == IF n = 0 THEN Small(0)
               ELSE Plus(MulC(a, n % 256, 0), <<0>> \o SubSeq(Times(a, n \div 256), 1, 8))
RECURSIVE Below(_, _)
Below(a, b) == IF a = <<>> THEN FALSE
               ELSE LET n == Len(a) IN
                    IF a[n] # b[n] THEN a[n] < b[n] ELSE Below(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1))
Upto(a, b) == a = b \/ Below(a, b)
=============================================================================
