--------------------------- MODULE MultiVectorGen ---------------------------
(* All transitions of a multivector with up to MAXLEN buckets of up to      *)
(* MAXITEMS items, which is created repeatedly.                             *)
EXTENDS MultiVector, GenIO
CONSTANTS NAME, ST, MAXLEN, MAXITEMS
Start == <<[op |-> "reset", d |-> "ext", kind |-> "mv", st |-> ST, s |-> NAME]>>
ASSUME EmitStart(Start)
Items == {<<VariadicOf[NAME].variants[i][1], 77>> : i \in DOMAIN VariadicOf[NAME].variants}
Buckets == UNION {[1..n -> Items] : n \in 0..MAXITEMS}
Ops == {[op |-> "create", schema |-> x] : x \in {"", "a b"}} \cup {[op |-> "close"]}
   \cup {[op |-> "grow", rep |-> 1, items |-> b] : b \in Buckets}
GInit == s = NAME /\ schema = "" /\ open = FALSE /\ runs = <<>> /\ obs = [k |-> "ok"]
GNext == \E o \in Ops :
           /\ (o.op = "create") # open
           /\ Do(o)
           /\ Total(runs') <= MAXLEN
           /\ EmitStep(<<open, schema, runs>>, o, <<open', schema', runs'>>)
GSpec == GInit /\ [][GNext]_vars
View == <<open, schema, runs>>
\* positions in the index never decrease, and the last one is the end of the data
Monotonic == \A i, j \in 0..Total(runs) : i <= j => DataSize(SubSeq(runs, 1, i)) <= DataSize(SubSeq(runs, 1, j))
Complete == [][obs'.k = "mview" => /\ obs'.raw.n = DataSize(runs) + 16
                                  /\ obs'.idx.n = (Len(obs'.b) + 1) * IndexSize + 16]_vars
=============================================================================
