----------------------------- MODULE StructGen ------------------------------
(* Generates one operation sequence for each transition of the state graph  *)
(* of two handles whose fields take extreme values, and checks C04 on the   *)
(* specification.                                                           *)
EXTENDS Struct, GenIO
CONSTANTS NAME, REGS
Ones(n) == [i \in 1..n |-> 255]
Extreme(f) == IF f[2] = "bool" THEN {FromInt(0), FromInt(1)}
              ELSE IF IsEnum(f[2]) THEN {FromInt(0), FromInt(1)}
              ELSE {FromInt(0), Pack(Extend([k \in 1..f[4] |-> 1], 64, Signed(f[2])), 8)}
Ops == {[op |-> "set", r |-> r, f |-> f - 1, v |-> v] :
          r \in 0..(REGS - 1), f \in 1..Len(FieldsOf(NAME)), v \in UNION {Extreme(FieldsOf(NAME)[i]) : i \in 1..Len(FieldsOf(NAME))}}
       \cup {[op |-> "copy", r |-> r, q |-> q] : r \in 0..(REGS - 1), q \in 0..(REGS - 1)}
       \cup {[op |-> "eq", r |-> r, q |-> q] : r \in 0..(REGS - 1), q \in 0..(REGS - 1)}
       \cup {[op |-> "dbg", r |-> r] : r \in 0..(REGS - 1)}
Allowed(o) == /\ o.op = "set" => o.v \in Extreme(FieldsOf(NAME)[o.f + 1])
              /\ o.op = "copy" => o.r # o.q
Start == <<[op |-> "reset", d |-> "struct"], [op |-> "new", r |-> 0, s |-> NAME],
           [op |-> "raw", r |-> 1, s |-> NAME, b |-> Ones(SizeOf(NAME))]>>
GInit == /\ regs = <<[s |-> NAME, b |-> Zeros(SizeOf(NAME)), buf |-> TRUE], [s |-> NAME, b |-> Ones(SizeOf(NAME)), buf |-> FALSE]>>
         /\ obs = [k |-> "ok"]
ASSUME EmitStart(Start)
Emit(o) == EmitStep(regs, o, regs')
GNext == \E o \in Ops : Allowed(o) /\ Do(o) /\ Emit(o)
View == regs
GSpec == GInit /\ [][GNext]_vars

\* setting a field changes no other one
OnlyOne == [][\A r \in 1..Len(regs) :
                Cardinality({i \in 1..Len(FieldsOf(NAME)) : Values(NAME, regs[r].b)[i] # Values(NAME, regs'[r].b)[i]}) <= 1
                \/ \E q \in 1..Len(regs) : Values(NAME, regs'[r].b) = Values(NAME, regs[q].b)]_vars
=============================================================================
