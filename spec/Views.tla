-------------------------------- MODULE Views -------------------------------
(* Views of arrays and of multiarrays: element access and slices.           *)
(* Property C08.                                                            *)
EXTENDS Elements
VARIABLES s,      \* layout of the elements, or variadic struct of the items
          multi,  \* whether these are views of multiarrays
          regs,   \* views: elements, and number of further bytes
          obs
vars == <<s, multi, regs, obs>>
Panic == [k |-> "panic"]

\* an element, or none in case of damaged data
El(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> <<>>]

-----------------------------------------------------------------------------
(* Views of raw resources                                                   *)
RECURSIVE IntOf(_)
IntOf(b) == IF b = <<>> THEN 0 ELSE Head(b) + 256 * IntOf(Tail(b))
\* integers which are too large are all the same here
Small(b) == IF (\E i \in DOMAIN b : i > 4 /\ b[i] # 0) \/ (Len(b) >= 4 /\ b[4] >= 128) THEN -2147483647
            ELSE IntOf(SubSeq(b, 1, Min2(Len(b), 4)))
IndexName(nm) == VariadicOf[nm].index
IndexEntry(nm, idx, i) == LET size == IndexOf[IndexName(nm)].size
                          bits == IndexOf[IndexName(nm)].bits
                      IN Small(Pack(BitsAt(SubSeq(idx, i * size + 1, (i + 1) * size), 0, bits), 8))
Variants(nm) == {VariadicOf[nm].variants[i] : i \in DOMAIN VariadicOf[nm].variants}
\* items of the bytes of a bucket
RECURSIVE Items(_, _, _)
Items(nm, b, acc) ==
    IF b = <<>> THEN El(acc)
    ELSE LET vs == {x \in Variants(nm) : x[1] = Head(b)}
         IN IF vs = {} THEN Bad
            ELSE LET st == (CHOOSE x \in vs : TRUE)[2]
                     d == Tail(b)
                 IN IF Len(d) < SizeOf(st) THEN Bad
                    ELSE LET v == Values(st, SubSeq(d, 1, SizeOf(st)))
                         IN Items(nm, SubSeq(d, SizeOf(st) + 1, Len(d)),
                                  Append(acc, <<Head(b)>> \o [i \in 1..Len(v) |-> Small(v[i])]))
Bucket(nm, idx, dat, i) ==
    LET a == IndexEntry(nm, idx, i)
        b == IndexEntry(nm, idx, i + 1)
    IN IF a < 0 \/ b < 0 \/ a > b \/ b > Len(dat) THEN Bad ELSE Items(nm, SubSeq(dat, a + 1, b), <<>>)
RawBuckets(nm, idx, dat) == [i \in 1..(Len(idx) \div IndexOf[IndexName(nm)].size - 1) |-> Bucket(nm, idx, dat, i - 1)]

-----------------------------------------------------------------------------
StoredItem(nm, x) == LET st == (CHOOSE y \in Variants(nm) : y[1] = x[1])[2] IN <<x[1]>> \o StoredEl(st, Tail(x))
Start(o) ==
    /\ s' = o.s
    /\ multi' = (o.kind # "av")
    /\ regs' = <<[els |-> CASE o.kind = "av" -> [i \in 1..Len(o.el) |-> El(StoredEl(o.s, o.el[i]))]
                           [] o.kind = "mv" -> [i \in 1..Len(o.el) |-> El([j \in 1..Len(o.el[i]) |-> StoredItem(o.s, o.el[i][j])])]
                           [] o.kind = "rawmv" -> RawBuckets(o.s, o.idx, o.dat),
                  extra |-> IF o.kind = "av" THEN o.extra ELSE 0]>>
    /\ obs' = [k |-> "ok"]

Values1(els) == [i \in 1..Len(els) |-> els[i].v]
\* bytes of an array view: further bytes follow the elements
Data(x) == IF multi THEN [n |-> 0, nz |-> <<>>]
           ELSE LET e == SparseSeq(s, Values1(x.els))
                IN [n |-> e.n + x.extra, nz |-> e.nz \o [i \in 1..x.extra |-> <<e.n + i - 1, 255>>]]
State(x) == IF \E i \in 1..Min2(Len(x.els), 1000) : ~ x.els[i].ok THEN Panic
            ELSE [k |-> "sl", n |-> Len(x.els), empty |-> Len(x.els) = 0,
                  el |-> Values1(SubSeq(x.els, 1, Min2(Len(x.els), 1000))), by |-> Data(x)]

\* indices which exceed 32 bit are given by names
Big(i) == i \in {"max", "max-1", "max-2", "half", "i32", "i32+1", "wrap", "wrap-1", "wrap+1", "iwrap"}
IsBig(o, f) == f \in DOMAIN o /\ o[f]
At(o, silent) ==
    LET x == regs[o.r + 1] IN
    /\ UNCHANGED <<s, multi, regs>>
    /\ obs' = IF IsBig(o, "big") THEN Panic
              ELSE IF o.i >= Len(x.els) THEN Panic
              ELSE IF ~ x.els[o.i + 1].ok /\ ~ silent THEN Panic
              ELSE IF silent THEN [k |-> "ok"] ELSE [k |-> "el", v |-> x.els[o.i + 1].v]

\* the range of a slice, if it is valid
SliceOf(o, n) ==
    IF (o.sk # "unb" /\ IsBig(o, "sbig")) \/ (o.ek # "unb" /\ IsBig(o, "ebig")) THEN <<>>
    ELSE LET a == CASE o.sk = "unb" -> 0 [] o.sk = "inc" -> o.s [] o.sk = "exc" -> o.s + 1
             b == CASE o.ek = "unb" -> n [] o.ek = "inc" -> o.e + 1 [] o.ek = "exc" -> o.e
         IN IF a <= b /\ b <= n THEN <<a, b>> ELSE <<>>
\* bytes after the last element may remain in slices without end
Slice(o, keep) ==
    LET x == regs[o.r + 1]
        range == SliceOf(o, Len(x.els))
        y == [els |-> SubSeq(x.els, range[1] + 1, range[2]), extra |-> IF keep THEN x.extra ELSE 0]
    IN /\ keep => o.ek = "unb"
       /\ UNCHANGED <<s, multi>>
       /\ IF range = <<>>
          THEN /\ UNCHANGED regs
               /\ obs' = Panic
          ELSE /\ regs' = IF o.q < Len(regs) THEN [regs EXCEPT ![o.q + 1] = y] ELSE Append(regs, y)
               /\ obs' = State(y)
\* items equal each other if they are of the same variant and have equal fields
ItemsOf(x, i) == IF multi THEN x.els[i + 1].v ELSE <<x.els[i + 1].v>>
SizeOfItem(x) == IF multi THEN SizeOf((CHOOSE y \in Variants(s) : y[1] = Head(x))[2]) ELSE SizeOf(s)
Compare(o) ==
    LET x == regs[o.r + 1]
        y == regs[o.q + 1]
    IN /\ UNCHANGED <<s, multi, regs>>
       /\ obs' = IF o.i >= Len(x.els) \/ o.j >= Len(y.els) THEN Panic
                 ELSE LET a == ItemsOf(x, o.i)
                          b == ItemsOf(y, o.j)
                      IN [k |-> "cmp", ok |-> TRUE, v |-> [m \in DOMAIN a |-> [n \in DOMAIN b |-> a[m] = b[n]]],
                          sz |-> [m \in DOMAIN a |-> SizeOfItem(a[m])]]
Do(o) == CASE o.op = "reset" -> Start(o)
           [] o.op = "at" -> At(o, FALSE)
           [] o.op = "atq" -> At(o, TRUE)
           [] o.op = "slice" -> \E keep \in BOOLEAN : Slice(o, keep)
           [] o.op = "cmp" -> Compare(o)
           [] o.op = "state" -> UNCHANGED <<s, multi, regs>> /\ obs' = State(regs[o.r + 1])
Init == s = "TsA" /\ multi = TRUE /\ regs = <<>> /\ obs = [k |-> "ok"]
=============================================================================
