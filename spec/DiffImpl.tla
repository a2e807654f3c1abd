------------------------------ MODULE DiffImpl ------------------------------
(* Computation of a diff by a longest common subsequence of the lines, with *)
(* the special treatment of newlines at the end, checked for all pairs of   *)
(* short texts to satisfy the specification (Format!DiffOk); and generation *)
(* of the pairs.  BUG selects a variant with a defect.                      *)
EXTENDS Format, GenIO
CONSTANTS LINES, MAX, BUG, EMIT
VARIABLES stored, wanted, result
vars == <<stored, wanted, result>>
\* texts as sequences of lines joined by newlines
RECURSIVE JoinLines(_)
JoinLines(ls) == IF Len(ls) = 0 THEN <<>> ELSE IF Len(ls) = 1 THEN Head(ls) ELSE Head(ls) \o <<10>> \o JoinLines(Tail(ls))
Line(k) == IF k = 0 THEN <<>> ELSE <<96 + k>>
Texts == {JoinLines([i \in 1..n |-> Line(f[i])]) : n \in 1..MAX, f \in [1..MAX -> LINES]}

\* lines without an empty one at the end
Trim(t) == LET ls == Split(t) IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
EndsNl(t) == t # <<>> /\ t[Len(t)] = 10
RECURSIVE Lcs(_, _)
Lcs(x, y) == IF x = <<>> \/ y = <<>> THEN 0
             ELSE IF Head(x) = Head(y) THEN 1 + Lcs(Tail(x), Tail(y))
             ELSE LET p == Lcs(Tail(x), y)
                      q == Lcs(x, Tail(y))
                  IN IF p > q THEN p ELSE q
RECURSIVE Walk(_, _)
Walk(x, y) ==
    IF x # <<>> /\ y # <<>> /\ Head(x) = Head(y) THEN <<<<BLANK>> \o Head(x)>> \o Walk(Tail(x), Tail(y))
    ELSE IF x # <<>> /\ (y = <<>> \/ Lcs(Tail(x), y) >= Lcs(x, Tail(y))) THEN <<<<MINUS>> \o Head(x)>> \o Walk(Tail(x), y)
    ELSE IF y # <<>> THEN <<<<PLUS>> \o Head(y)>> \o Walk(x, Tail(y))
    ELSE <<>>
AtEnd(x, y) == IF BUG = "newline" THEN <<>>
              ELSE CASE EndsNl(x) /\ EndsNl(y) -> <<<<BLANK>>>>
                     [] EndsNl(x) /\ ~ EndsNl(y) -> <<<<MINUS>>>>
                     [] EndsNl(y) /\ ~ EndsNl(x) -> <<<<PLUS>>>>
                     [] OTHER -> <<>>
Diff(x, y) == LET d == IF BUG = "swapped" THEN Walk(Trim(y), Trim(x)) ELSE Walk(Trim(x), Trim(y))
                  e == IF BUG = "changes" THEN SelectSeq(d, LAMBDA l : l[1] # BLANK) ELSE d
                  f == IF BUG = "trimmed" THEN SelectSeq(e, LAMBDA l : Len(l) > 1) ELSE e
              IN JoinLines(f \o AtEnd(x, y))
Unset == <<-1>>
\* all pairs
Init == stored = Unset /\ wanted = Unset /\ result = <<>>
Next == /\ stored = Unset
        /\ \E x \in Texts : stored' = x
        /\ \E y \in Texts : wanted' = y
        /\ result' = Diff(stored', wanted')
        /\ EMIT => EmitStep(<<>>, [op |-> "pair", a |-> stored', b |-> wanted'], <<>>)
Spec == Init /\ [][Next]_vars
ASSUME EMIT => EmitStart(<<>>)
Explains == (stored # Unset /\ stored # wanted) => DiffOk(result, stored, wanted)
=============================================================================
