------------------------------ MODULE ExtImpl -------------------------------
(* How external vectors work: elements are appended to a buffer in front of *)
(* a padding, the buffer is written to the stream when it exceeds a limit,  *)
(* and closing completes the resource.  Checked to implement ExtVector: the *)
(* resource becomes readable only by closing, with exactly the elements.    *)
(* The sizes are scaled down: a header is one cell, the padding PAD cells.  *)
(* BUG selects a defective variant, which the properties have to exclude.   *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS PAD, LIMIT, SIZES, MAXLEN, BUG
VARIABLES size, els, buf, stream, written, phase
vars == <<size, els, buf, stream, written, phase>>
Zeros(n) == [i \in 1..n |-> 0]
MAXHEADER == 999
Init == /\ size \in SIZES
        /\ els = <<>>
        /\ buf = Zeros(PAD)
        /\ stream = <<MAXHEADER>>
        /\ written = 0
        /\ phase = "open"
Data(b) == SubSeq(b, 1, Len(b) - PAD)
Flush == /\ stream' = stream \o Data(buf)
         /\ written' = IF BUG = "count" THEN Len(buf) - PAD ELSE written + Len(buf) - PAD
After == IF BUG = "nopad" THEN <<>> ELSE IF BUG = "dirty" THEN SubSeq(buf, 1, PAD) ELSE Zeros(PAD)
Add(b) == b \o Zeros(size)
Grow == /\ phase = "open" /\ Len(els) < MAXLEN
        /\ IF Len(buf) > LIMIT /\ BUG # "keeps"
           THEN Flush /\ buf' = Add(After)
           ELSE buf' = Add(buf) /\ UNCHANGED <<stream, written>>
        /\ els' = Append(els, Zeros(size))
        /\ UNCHANGED <<size, phase>>
\* through the handle of the last element, which starts PAD cells before its place in the buffer
Set == /\ phase = "open" /\ els # <<>>
       /\ \E p \in {1, size} :
            /\ els[Len(els)][p] = 0
            /\ els' = [els EXCEPT ![Len(els)][p] = 1]
            /\ buf' = [buf EXCEPT ![Len(buf) - size - PAD + p] = 1]
       /\ UNCHANGED <<size, stream, written, phase>>
Close == /\ phase = "open"
         /\ LET s == stream \o Data(buf) \o Zeros(PAD)
                n == IF BUG = "count" THEN Len(buf) - PAD ELSE written + Len(buf) - PAD
            IN stream' = [s EXCEPT ![1] = n]
         /\ phase' = "closed"
         /\ UNCHANGED <<size, els, buf, written>>
Next == Grow \/ Set \/ Close
Spec == Init /\ [][Next]_vars
Readable == stream[1] = Len(stream) - 1 - PAD
Content == SubSeq(stream, 2, Len(stream) - PAD)
Correct == /\ Readable = (phase = "closed")
           /\ Readable => Content = FlattenSeq(els)
\* memory which is needed does not depend on the number of elements (C22)
Bounded == Len(buf) <= LIMIT + size
\* It is an instance of writing through a buffer, which is proved for all sizes
Elements == Len(els)
Total == Elements * size
B == INSTANCE Buffer WITH
        MAX <- 1000, BUG <- "none", total <- Total, hi <- Total,
        lo <- IF phase = "open" THEN written ELSE Total,
        written <- IF phase = "open" THEN written ELSE Total,
        file <- Len(stream) - 1, clean <- TRUE,
        header <- IF phase = "open" THEN -1 ELSE stream[1],
        cur <- IF Elements = 0 THEN 0 ELSE size,
        largest <- IF Elements = 0 THEN 0 ELSE size,
        start <- IF Elements = 0 THEN 0 ELSE Total - size,
        begin <- IF Elements = 0 THEN 0 ELSE Total - size,
        exact <- TRUE
Instance == B!Init /\ [][\E n \in SIZES : B!Grow(n) \/ B!Close]_(B!vars)
=============================================================================
