-------------------------------- MODULE Paths -------------------------------
(* Names of resources and directories are paths: components separated by    *)
(* slashes, where empty components and those which are . are insignificant. *)
EXTENDS Integers, Sequences
Component(out, c) == IF c \in {"", "."} THEN out ELSE IF out = "" THEN c ELSE out \o "/" \o c
RECURSIVE NormalFrom(_, _, _, _)
NormalFrom(p, i, out, cur) ==
    IF i > Len(p) THEN Component(out, cur)
    ELSE IF SubSeq(p, i, i) = "/" THEN NormalFrom(p, i + 1, Component(out, cur), "")
    ELSE NormalFrom(p, i + 1, out, cur \o SubSeq(p, i, i))
Normal(p) == NormalFrom(p, 1, "", "")
\* as a prefix of the names below a directory
Prefix(p) == LET n == Normal(p) IN IF n = "" THEN "" ELSE n \o "/"
=============================================================================
