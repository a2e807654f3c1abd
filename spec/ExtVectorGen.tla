---------------------------- MODULE ExtVectorGen ----------------------------
(* All transitions of an external vector with up to MAXLEN elements, which  *)
(* is created repeatedly.                                                   *)
EXTENDS ExtVector, GenIO
CONSTANTS NAME, ST, VALUES, MAXLEN
Start == <<[op |-> "reset", d |-> "ext", kind |-> "ev", st |-> ST, s |-> NAME]>>
ASSUME EmitStart(Start)
El(v) == [i \in 1..NumFields(NAME) |-> IF i = 1 THEN v ELSE 1]
Ops == {[op |-> "create", schema |-> x] : x \in {"", "a b"}} \cup {[op |-> "close"]}
   \cup {[op |-> "grow", rep |-> n, v0 |-> w, v |-> v] : n \in 1..2, v \in {El(x) : x \in VALUES}, w \in {<<>>}}
   \cup {[op |-> "grow", rep |-> 1, v0 |-> El(x), v |-> <<>>] : x \in VALUES}
   \cup {[op |-> "grow", rep |-> 1, v0 |-> <<>>, v |-> <<>>]}
GInit == s = NAME /\ schema = "" /\ open = FALSE /\ runs = <<>> /\ obs = [k |-> "ok"]
GNext == \E o \in Ops :
           /\ (o.op = "create") # open
           /\ Do(o)
           /\ Total(runs') <= MAXLEN
           /\ EmitStep(<<open, schema, FirstOf(runs, 100)>>, o, <<open', schema', FirstOf(runs', 100)>>)
GSpec == GInit /\ [][GNext]_vars
View == <<open, schema, FirstOf(runs, 100)>>
\* the resource is finished only by closing, which does not change the elements
OnlyClose == [][obs'.k = "view" => /\ obs'.el = FirstOf(runs, 2000)
                                  /\ obs'.raw.n = Len(obs'.el) * SizeOf(s) + 16]_vars
=============================================================================
