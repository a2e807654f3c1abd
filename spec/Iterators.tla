------------------------------ MODULE Iterators -----------------------------
(* Iterators of views and of buckets: the remaining elements are a          *)
(* sequence, which is shortened at both ends.  Properties C09 and C20.      *)
EXTENDS Elements
VARIABLES s,     \* layout of the elements, or variadic struct of the items
          kind,  \* av: array view, mv: view of a multiarray, vec: vector
          src,   \* elements of the view
          regs,  \* iterators: kind (av, mv or items) and remaining elements
          obs
vars == <<s, kind, src, regs, obs>>

Variants(nm) == {VariadicOf[nm].variants[i] : i \in DOMAIN VariadicOf[nm].variants}
StructOfTag(nm, t) == (CHOOSE y \in Variants(nm) : y[1] = t)[2]
StoredItem(nm, x) == <<x[1]>> \o StoredEl(StructOfTag(nm, x[1]), Tail(x))
Stored(o) == IF o.kind = "mv" THEN [i \in 1..Len(o.el) |-> [j \in 1..Len(o.el[i]) |-> StoredItem(o.s, o.el[i][j])]]
             ELSE [i \in 1..Len(o.el) |-> StoredEl(o.s, o.el[i])]

Drop(q, n) == SubSeq(q, n + 1, Len(q))
DropLast(q, n) == SubSeq(q, 1, Len(q) - n)
First(q, n) == SubSeq(q, 1, Min2(n, Len(q)))
SkipN(q, n) == IF n >= Len(q) THEN <<>> ELSE Drop(q, n)
Pair(a, b) == <<a, b>>
ZipSkip(q, k) == LET t == SkipN(q, k) IN [i \in 1..Len(t) |-> <<q[i], t[i]>>]
Enum(q) == [i \in 1..Len(q) |-> <<i - 1, q[i]>>]
Steps(q, k) == [i \in 1..((Len(q) + k) \div (k + 1)) |-> q[(i - 1) * (k + 1) + 1]]
\* what an adapter yields of a sequence
Adapted(q, a, k) ==
    CASE a \in {"collect", "for", "fold", "peek", "byref"} -> q
      [] a = "skip" -> SkipN(q, k)
      [] a = "take" -> First(q, k)
      [] a = "step" -> Steps(q, k)
      [] a = "enumerate" -> Enum(q)
      [] a = "zip" -> ZipSkip(q, k)
      [] a = "chain" -> SkipN(q, k) \o q
      [] a = "last" -> IF q = <<>> THEN <<>> ELSE <<q[Len(q)]>>
      [] a = "count" -> <<<<Len(q)>>>>
      [] a = "skipnext" -> SkipN(q, k + 1)
      [] a \in {"rev", "rfold"} -> Reverse(q)
      [] a = "revskip" -> SkipN(Reverse(q), k)
      [] a = "skiprev" -> Reverse(SkipN(q, k))
      [] a = "takerev" -> Reverse(First(q, k))
      [] a = "revtake" -> First(Reverse(q), k)
      [] a = "enumrev" -> Reverse(Enum(q))
      [] a = "ziprev" -> Reverse(ZipSkip(q, k))
      [] a = "steprev" -> Reverse(Steps(q, k))
      [] a = "chainrev" -> Reverse(q \o SkipN(q, k))
      [] a = "lens" -> <<<<Max2(Len(q) - k, 0)>>, <<Min2(k, Len(q))>>, <<Len(q)>>>>

-----------------------------------------------------------------------------
(* Debug output                                                             *)
PREVIEW == 10
DecimalInt(n) == DecimalU(FromInt(n))
ShowItem(x) == ShowEl(StructOfTag(s, x[1]), Tail(x))
List(strs) == "[" \o Join(strs, ", ") \o "]"
ShowItems(items) == List([i \in 1..Len(items) |-> ShowItem(items[i])])
ShowSeq(k, name, q) ==
    LET p == First(q, PREVIEW)
        strs == [i \in 1..Len(p) |-> IF k = "mv" THEN "(" \o DecimalInt(i - 1) \o ", " \o ShowItems(p[i]) \o ")" ELSE ShowEl(s, p[i])]
    IN name \o " { len: " \o DecimalInt(Len(q)) \o ", data: " \o List(strs)
       \o (IF Len(q) > PREVIEW THEN "..." ELSE "") \o " }"
SourceName == CASE kind = "av" -> "ArrayView" [] kind = "mv" -> "MultiArrayView" [] kind = "vec" -> "Vector"
ShowIter(x) == IF x.k = "items" THEN "MultiArrayViewItemIter { data: " \o ShowItems(x.q) \o " }"
               ELSE ShowSeq(x.k, SourceName \o "Iter", x.q)

-----------------------------------------------------------------------------
Start(o) == s' = o.s /\ kind' = o.kind /\ src' = Stored(o) /\ regs' = <<>> /\ obs' = [k |-> "ok"]
PutReg(r, x) == IF r < Len(regs) THEN [regs EXCEPT ![r + 1] = x] ELSE Append(regs, x)
Iter(o) == /\ regs' = PutReg(o.r, IF o.how = "items" THEN [k |-> "items", q |-> src[o.n + 1]] ELSE [k |-> kind, q |-> src])
           /\ UNCHANGED <<s, kind, src>>
           /\ obs' = [k |-> "ok"]
Clone(o) == /\ regs' = PutReg(o.r, regs[o.q + 1])
            /\ UNCHANGED <<s, kind, src>>
            /\ obs' = [k |-> "ok"]
\* element at position n is returned, it and those before it are gone
Count(o) == IF "n" \notin DOMAIN o THEN 0 ELSE o.n
IsBig(o) == "big" \in DOMAIN o /\ o.big
Take(o, fromback) ==
    LET q == regs[o.r + 1].q
        some == ~ IsBig(o) /\ Count(o) < Len(q)
    IN /\ regs' = [regs EXCEPT ![o.r + 1].q = IF ~ some THEN <<>>
                                             ELSE IF fromback THEN DropLast(q, Count(o) + 1) ELSE Drop(q, Count(o) + 1)]
       /\ UNCHANGED <<s, kind, src>>
       /\ obs' = [k |-> "opt", v |-> IF ~ some THEN <<>>
                                    ELSE <<IF fromback THEN q[Len(q) - Count(o)] ELSE q[Count(o) + 1]>>]
Look(x) == UNCHANGED <<s, kind, src, regs>> /\ obs' = x
Remaining(o) == LET n == Len(regs[o.r + 1].q) IN Look([k |-> "len", n |-> n, lo |-> n, hi |-> n])
\* bounds of the number of remaining items; -1: no upper bound
Hint(o, lo, hi) == LET n == Len(regs[o.r + 1].q) IN
                   /\ lo <= n /\ (hi = -1 \/ n <= hi)
                   /\ Look([k |-> "hint", lo |-> lo, hi |-> hi])
Adapt(o) == LET q == regs[o.r + 1].q IN Look([k |-> "list", v |-> Adapted(q, o.a, IF IsBig(o) THEN Len(q) + 1 ELSE o.n)])
Slice(a, b) == /\ src' = SubSeq(src, a + 1, b)
               /\ UNCHANGED <<s, kind, regs>>
               /\ obs' = [k |-> "ok"]
\* all but Hint
Do(o) == CASE o.op = "reset" -> Start(o)
           [] o.op = "iter" -> Iter(o)
           [] o.op = "clone" -> Clone(o)
           [] o.op \in {"next", "nth"} -> Take(o, FALSE)
           [] o.op \in {"back", "nthb"} -> Take(o, TRUE)
           [] o.op = "len" -> Remaining(o)
           [] o.op = "adapt" -> Adapt(o)
           [] o.op = "vslice" -> Slice(o.a, o.b)
           [] o.op = "dbg" -> Look([k |-> "dbg", s |-> ShowIter(regs[o.r + 1])])
           [] o.op = "vdbg" -> Look([k |-> "dbg", s |-> ShowSeq(kind, SourceName, src)])
Init == s = "V1" /\ kind = "av" /\ src = <<>> /\ regs = <<>> /\ obs = [k |-> "ok"]
=============================================================================
