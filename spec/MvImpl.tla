------------------------------- MODULE MvImpl -------------------------------
(* How multivectors work: a buffer for the data and an external vector for  *)
(* the index; both are written to their streams when they exceed a limit.   *)
(* Checked to implement MultiVector.                                        *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS PAD, LIMIT, SIZES, MAXLEN, MAXITEMS, MAXINDEX, BUG
VARIABLES bks,      \* buckets: sequences of items, an item is its cells
          data,     \* buffer of the data, with padding
          dstream, flushed,
          index,    \* buffer of the index (each entry is a cell), with padding
          istream,
          phase
vars == <<bks, data, dstream, flushed, index, istream, phase>>
Zeros(n) == [i \in 1..n |-> 0]
MAXHEADER == 999
Init == /\ bks = <<>> /\ phase = "open"
        /\ data = Zeros(PAD) /\ dstream = <<MAXHEADER>> /\ flushed = 0
        /\ index = Zeros(PAD) /\ istream = <<MAXHEADER>>
Data(b) == SubSeq(b, 1, Len(b) - PAD)
\* an entry of the index
AddIndex(at) == LET full == Len(index) > LIMIT /\ BUG # "ikeeps"
                    b == IF full THEN Zeros(PAD) ELSE index
                IN [buf |-> [(b \o <<0>>) EXCEPT ![Len(b) + 1 - PAD] = at % (MAXINDEX + 1)], out |-> IF full THEN istream \o Data(index) ELSE istream]
Grow == /\ phase = "open" /\ Len(bks) < MAXLEN
        /\ LET full == Len(data) > LIMIT /\ BUG # "keeps"
               b == IF full THEN Zeros(PAD) ELSE data
               f == IF full /\ BUG # "flushed" THEN flushed + Len(data) - PAD ELSE flushed
               x == AddIndex((IF BUG = "early" /\ full THEN flushed + PAD ELSE f) + Len(b) - PAD)
           IN /\ data' = b
              /\ flushed' = f
              /\ dstream' = IF full THEN dstream \o Data(data) ELSE dstream
              /\ index' = x.buf /\ istream' = x.out
        /\ bks' = Append(bks, <<>>)
        /\ UNCHANGED phase
\* an item: a tag and size cells; the tag is its size
Add == /\ phase = "open" /\ bks # <<>> /\ Len(bks[Len(bks)]) < MAXITEMS
       /\ \E n \in SIZES : \E v \in {0, 1} :
            LET item == <<n>> \o [Zeros(n) EXCEPT ![n] = v]
                b == data \o Zeros(n + 1)
                at == IF BUG = "tag" THEN Len(data) ELSE Len(data) - PAD
            IN /\ bks' = [bks EXCEPT ![Len(bks)] = Append(@, item)]
               /\ data' = [i \in 1..Len(b) |-> IF i > at /\ i <= at + Len(item) THEN item[i - at] ELSE b[i]]
       /\ UNCHANGED <<dstream, flushed, index, istream, phase>>
Finish(s, n) == [(s \o Zeros(PAD)) EXCEPT ![1] = n]
Fits(at) == IF BUG = "narrow" THEN TRUE ELSE IF BUG = "start" THEN at - MAXITEMS <= MAXINDEX ELSE at <= MAXINDEX
Close == /\ phase = "open"
         /\ Fits(flushed + Len(data) - PAD)
         /\ LET x == AddIndex(flushed + Len(data) - PAD)
                i == IF BUG = "sentinel" THEN istream \o Data(index) ELSE x.out \o Data(x.buf)
                d == dstream \o Data(data)
            IN istream' = Finish(i, Len(i) - 1) /\ dstream' = Finish(d, Len(d) - 1)
         /\ phase' = "closed"
         /\ UNCHANGED <<bks, data, flushed, index>>
\* all entries fit into the index if the last one does
Fail == /\ phase = "open" /\ ~ Fits(flushed + Len(data) - PAD)
        /\ phase' = "failed"
        /\ UNCHANGED <<bks, data, dstream, flushed, index, istream>>
Next == Grow \/ Add \/ Close \/ Fail
Spec == Init /\ [][Next]_vars
Readable(s) == s[1] = Len(s) - 1 - PAD
Content(s) == SubSeq(s, 2, Len(s) - PAD)
\* what a reader finds: items between two entries of the index
RECURSIVE Items(_)
Items(b) == IF b = <<>> THEN <<>>
            ELSE IF Head(b) + 1 > Len(b) THEN <<<<>>>>
            ELSE <<SubSeq(b, 1, Head(b) + 1)>> \o Items(SubSeq(b, Head(b) + 2, Len(b)))
View == LET i == Content(istream)
            d == Content(dstream)
        IN [k \in 1..(Len(i) - 1) |-> Items(SubSeq(d, i[k] + 1, i[k + 1]))]
Correct == /\ Readable(istream) = (phase = "closed")
           /\ Readable(dstream) = (phase = "closed")
           /\ phase = "closed" => View = bks
\* memory which is needed depends neither on the number of buckets nor on the size of their data (C22)
BiggestBucket == MAXITEMS * (1 + CHOOSE n \in SIZES : \A m \in SIZES : m <= n)
Bounded == Len(data) <= LIMIT + BiggestBucket /\ Len(index) <= LIMIT + 1
\* Both buffers are instances of writing through a buffer, which is proved for all sizes
Size(b) == Len(FlattenSeq(b))
Biggest == LET sizes == {Size(bks[k]) : k \in DOMAIN bks} \cup {0} IN CHOOSE n \in sizes : \A m \in sizes : m <= n
Total == Size(FlattenSeq(bks))
\* starts as stored, in the buffer or in the stream
Entries == SubSeq(istream, 2, Len(istream)) \o Data(index)
D == INSTANCE Buffer WITH
        MAX <- MAXINDEX, BUG <- "none", total <- Total, hi <- Total,
        lo <- IF phase = "closed" THEN Total ELSE flushed,
        written <- IF phase = "closed" THEN Total ELSE flushed,
        file <- Len(dstream) - 1, clean <- phase # "failed",
        header <- IF phase = "closed" THEN dstream[1] ELSE -1,
        cur <- IF bks = <<>> THEN 0 ELSE Size(bks[Len(bks)]),
        largest <- Biggest,
        start <- IF bks = <<>> THEN 0 ELSE Total - Size(bks[Len(bks)]),
        begin <- IF bks = <<>> THEN 0 ELSE Total - Size(bks[Len(bks)]),
        exact <- phase = "closed" \/ \A k \in DOMAIN Entries : Entries[k] = Size(FlattenSeq(SubSeq(bks, 1, k - 1)))
Instance == D!Init /\ [][D!Close \/ D!CloseFails(0) \/ \E n \in 0..(BiggestBucket) : D!Grow(0) \/ D!Add(n)]_(D!vars)
=============================================================================
