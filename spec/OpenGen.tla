------------------------------ MODULE OpenGen -------------------------------
(* Generates all combinations of damage of the parts of an archive, and     *)
(* checks C12 on the specification.                                         *)
EXTENDS Archive, GenIO
CONSTANTS ARCHIVE, DAMAGE
All == Complete(ARCHIVE, "", 1, 1)
ASSUME EmitStart(<<>>)
RECURSIVE Combinations(_)
\* damage as sequence of paths and kinds
Combinations(ps) == IF ps = {} THEN {<<>>}
                    ELSE LET p == CHOOSE p \in ps : TRUE
                         IN {<<<<p, how>>>> \o c : how \in DAMAGE, c \in Combinations(ps \ {p})}
Case(c) == [op |-> "craft", h |-> 0, a |-> ARCHIVE, id |-> 1, dmg |-> c]
GNext == /\ parts = Empty
         /\ \E c \in Combinations(DOMAIN All) : Do(Case(c), FALSE, 0) /\ EmitStep(<<>>, Case(c), <<>>)
GSpec == Init /\ [][GNext]_vars
-----------------------------------------------------------------------------
\* parts which are necessary: of the archive or of required subarchives
RECURSIVE Required(_, _)
Required(a, pre) == {pre \o Signature(a)} \cup
    UNION {LET r == Res(a)[i] IN
           IF r[4] THEN {} ELSE IF r[1] = "sub" THEN Required(r[3], Dir(pre, r[2]))
           ELSE {pre \o r[2]} \cup (IF r[1] = "mv" THEN {pre \o r[2] \o "_index"} ELSE {}) : i \in DOMAIN Res(a)}
AllOrNothing == parts # Empty =>
    (Opens(parts, ARCHIVE, "") <=> \A p \in Required(ARCHIVE, "") : parts[p] = All[p])
\* content is the one which was stored, or absent
Stored == (parts # Empty /\ Opens(parts, ARCHIVE, "")) =>
    LET x == Content(parts, ARCHIVE, "") IN
    \A i \in DOMAIN x : \/ x[i][2] = NONE
                        \/ x[i][2] = All[x[i][1]].id
=============================================================================
