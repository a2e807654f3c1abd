----------------------------- MODULE MultiVector ----------------------------
(* Multivectors: buckets of items of different structs, with an index.      *)
(* Property C07.                                                            *)
EXTENDS Elements, Numbers
VARIABLES s,       \* name of the variadic struct
          schema,  \* schema of the resource which is written
          open,    \* between creation and closing
          runs,    \* buckets added: <<number of times, items>>; an item is <<tag, field values>>
          obs
vars == <<s, schema, open, runs, obs>>

IndexName == VariadicOf[s].index
IndexSize == IndexOf[IndexName].size
IndexBits == IndexOf[IndexName].bits
\* struct of a tag
RECURSIVE FindTag(_, _, _)
FindTag(vs, t, i) == IF vs[i][1] = t THEN vs[i][2] ELSE FindTag(vs, t, i + 1)
StructOfTag(t) == FindTag(VariadicOf[s].variants, t, 1)

\* stored item: fields hold the low bits
StoredItem(x) == <<x[1]>> \o StoredEl(StructOfTag(x[1]), Tail(x))
ItemSize(x) == 1 + SizeOf(StructOfTag(x[1]))
\* by variants, since there may be many items
RECURSIVE SizeByTags(_, _)
SizeByTags(items, vs) ==
    IF vs = <<>> THEN 0
    ELSE (1 + SizeOf(Head(vs)[2])) * Cardinality({i \in DOMAIN items : items[i][1] = Head(vs)[1]}) + SizeByTags(items, Tail(vs))
ItemsSize(items) == SizeByTags(items, VariadicOf[s].variants)
RECURSIVE SparseItems(_, _)
SparseItems(items, at) ==
    IF items = <<>> THEN <<>>
    ELSE LET x == Head(items)
         IN (IF x[1] = 0 THEN <<>> ELSE <<<<at, x[1]>>>>) \o SparseEl(StructOfTag(x[1]), Tail(x), at + 1)
            \o SparseItems(Tail(items), at + ItemSize(x))

RECURSIVE Total(_)
Total(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[1] + Total(Tail(rs))
RECURSIVE FirstOf(_, _)
FirstOf(rs, n) == IF rs = <<>> \/ n = 0 THEN <<>>
                ELSE LET k == Min2(Head(rs)[1], n)
                     IN [i \in 1..k |-> Head(rs)[2]] \o FirstOf(Tail(rs), n - k)
RECURSIVE DataSize(_)
DataSize(rs) == IF rs = <<>> THEN 0 ELSE Head(rs)[1] * ItemsSize(Head(rs)[2]) + DataSize(Tail(rs))
\* non-zero bytes of the data
RECURSIVE SparseData(_, _)
SparseData(rs, at) ==
    IF rs = <<>> THEN <<>>
    ELSE LET n == Head(rs)[1]
             size == ItemsSize(Head(rs)[2])
             e == SparseItems(Head(rs)[2], 0)
         IN (IF e = <<>> THEN <<>> ELSE FlattenSeq([i \in 1..n |-> Shift(e, at + (i - 1) * size)]))
            \o SparseData(Tail(rs), at + n * size)
\* non-zero bytes of the index: start of each bucket and of the end
RECURSIVE SparseIndex(_, _, _)
SparseIndex(rs, start, i) ==
    IF rs = <<>> THEN SparseInt(LowBits(start, IndexBits), i * IndexSize)
    ELSE LET n == Head(rs)[1]
             size == ItemsSize(Head(rs)[2])
         IN (IF start = 0 /\ size = 0 THEN <<>>
             ELSE FlattenSeq([j \in 1..n |-> SparseInt(LowBits(start + (j - 1) * size, IndexBits), (i + j - 1) * IndexSize)]))
            \o SparseIndex(Tail(rs), start + n * size, i + n)

Reset(n) == s' = n /\ schema' = "" /\ open' = FALSE /\ runs' = <<>> /\ obs' = [k |-> "ok"]
Create(x) == /\ ~ open
             /\ open' = TRUE /\ schema' = x /\ runs' = <<>>
             /\ UNCHANGED s
             /\ obs' = [k |-> "created", read |-> "err"]
\* the items are added times times to each of n buckets
Grow(n, group, times) ==
    LET items == [i \in 1..(times * Len(group)) |-> group[((i - 1) % Len(group)) + 1]]
    IN /\ open
       /\ runs' = IF n = 0 THEN runs ELSE Append(runs, <<n, [i \in 1..Len(items) |-> StoredItem(items[i])]>>)
       /\ UNCHANGED <<s, schema, open>>
       /\ obs' = [k |-> "ok"]
\* the end of the data fits into the index; otherwise an error is reported, and nothing can be read
Indexable(size) == /\ \A i \in (IndexBits \div 8 + 2)..9 : size[i] = 0
              /\ size[IndexBits \div 8 + 1] < 2 ^ (IndexBits % 8)
Failed == obs' = [k |-> "failed", read |-> "err"]
Close == /\ open
         /\ open' = FALSE
         /\ UNCHANGED <<s, schema, runs>>
         /\ IF ~ Indexable(Small(DataSize(runs))) THEN Failed
            ELSE obs' = [k |-> "mview", n |-> Total(runs), b |-> FirstOf(runs, 2000),
                    raw |-> Framed([n |-> DataSize(runs), nz |-> SparseData(runs, 0)]),
                    idx |-> Framed([n |-> (Total(runs) + 1) * IndexSize, nz |-> SparseIndex(runs, 0, 0)]),
                    sch |-> schema, isch |-> "index(" \o schema \o ")"]
-----------------------------------------------------------------------------
(* Multivectors with more than 2^32 bytes                                   *)
RECURSIVE WideSize(_)
WideSize(rs) == IF rs = <<>> THEN Small(0) ELSE Plus(Times(Small(Head(rs)[1]), ItemsSize(Head(rs)[2])), WideSize(Tail(rs)))
\* first k entries of the index
RECURSIVE Starts(_, _, _)
Starts(rs, start, k) ==
    IF k = 0 THEN <<>>
    ELSE IF rs = <<>> THEN <<Eight(start)>>
    ELSE LET n == Min2(Head(rs)[1], k)
             size == ItemsSize(Head(rs)[2])
         IN [j \in 1..n |-> Eight(Plus(start, Times(Small(j - 1), size)))] \o Starts(Tail(rs), Plus(start, Times(Small(n), size)), k - n)
WideClose == /\ open
             /\ open' = FALSE
             /\ UNCHANGED <<s, schema, runs>>
             /\ LET size == WideSize(runs)
                IN IF ~ Indexable(size) THEN Failed ELSE
                   LET b == FirstOf(runs, 1000) IN
                   obs' = [k |-> "wmview", n |-> Total(runs), b |-> [i \in DOMAIN b |-> SubSeq(b[i], 1, Min2(Len(b[i]), 2000))],
                           counts |-> [i \in DOMAIN b |-> Len(b[i])], idx |-> Starts(runs, Small(0), 1001),
                           hdr |-> Eight(size), total |-> Eight(Plus(size, Small(16)))]
Do(o) == CASE o.op = "reset" -> Reset(o.s)
           [] o.op = "create" -> Create(o.schema)
           [] o.op = "grow" -> Grow(o.rep, o.items, IF "times" \in DOMAIN o THEN o.times ELSE 1)
           [] o.op = "close" -> Close
           [] o.op = "bigclose" -> WideClose
Init == s = "TsA" /\ schema = "" /\ open = FALSE /\ runs = <<>> /\ obs = [k |-> "ok"]
=============================================================================
