------------------------------- MODULE Frames -------------------------------
(* C23: what may differ in the file system after an operation.  Paths are   *)
(* relative to the directory of the storage, and those of directories end   *)
(* with a slash.                                                            *)
EXTENDS Integers, Sequences
StartsWith(x, p) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
IsDir(x) == x = "" \/ SubSeq(x, Len(x), Len(x)) = "/"
\* own: resources which are written, and directories on the way to them
Within(x, own) == x \in own \/ (IsDir(x) /\ \E p \in own : StartsWith(p, x))
\* additional files, which are named like the resource, and neither known resources nor schemas
Aside(x, own, known) == /\ ~ IsDir(x)
                        /\ \E p \in own : StartsWith(x, p)
                        /\ x \notin known
=============================================================================
