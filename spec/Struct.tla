------------------------------- MODULE Struct -------------------------------
(* Handles of structs: read-only and mutable ones, in a StructBuf or in     *)
(* plain memory.  Properties C04, and C01-C03 for generated accessors.      *)
EXTENDS Layouts
VARIABLES regs,     \* structs: layout, bytes and whether it is a StructBuf
          obs
vars == <<regs, obs>>

State(x) == [k |-> "st", f |-> Values(x.s, x.b), b |-> x.b, c |-> TRUE]
Put(r, x) == IF r = Len(regs) THEN Append(regs, x) ELSE [regs EXCEPT ![r + 1] = x]

New(r, s) == LET x == [s |-> s, b |-> Zeros(SizeOf(s)), buf |-> TRUE]
             IN regs' = Put(r, x) /\ obs' = State(x)
Raw(r, s, b) == LET x == [s |-> s, b |-> b, buf |-> FALSE]
                IN regs' = Put(r, x) /\ obs' = State(x)
Set(r, f, v) == /\ regs' = [regs EXCEPT ![r + 1].b = SetField(@, FieldsOf(regs[r + 1].s)[f + 1], v)]
                /\ obs' = State(regs'[r + 1])
Get(r) == UNCHANGED regs /\ obs' = State(regs[r + 1])
RECURSIVE CopyAll(_, _, _, _)
CopyAll(s, to, from, i) ==
    IF i > Len(FieldsOf(s)) THEN to
    ELSE CopyAll(s, SetField(to, FieldsOf(s)[i], GetField(from, FieldsOf(s)[i])), from, i + 1)
Copy(r, q) == /\ regs' = [regs EXCEPT ![r + 1].b = CopyAll(regs[r + 1].s, @, regs[q + 1].b, 1)]
              /\ obs' = State(regs'[r + 1])
Eq(r, q) == /\ UNCHANGED regs
            /\ obs' = [k |-> "bool", v |-> Values(regs[r + 1].s, regs[r + 1].b) = Values(regs[q + 1].s, regs[q + 1].b)]
DebugOf(x, vals) == LET t == ShowStruct(x.s, vals)
                    IN [k |-> "dbg", r |-> t, m |-> t,
                        buf |-> IF x.buf THEN "StructBuf { resource: " \o t \o " }" ELSE ""]
Debug(r) == /\ UNCHANGED regs
            /\ obs' = DebugOf(regs[r + 1], Values(regs[r + 1].s, regs[r + 1].b))

Do(o) == CASE o.op = "reset" -> regs' = <<>> /\ obs' = [k |-> "ok"]
           [] o.op = "new" -> New(o.r, o.s)
           [] o.op = "raw" -> Raw(o.r, o.s, o.b)
           [] o.op = "set" -> Set(o.r, o.f, o.v)
           [] o.op = "get" -> Get(o.r)
           [] o.op = "copy" -> Copy(o.r, o.q)
           [] o.op = "eq" -> Eq(o.r, o.q)
           [] o.op = "dbg" -> Debug(o.r)
Init == regs = <<>> /\ obs = [k |-> "ok"]
=============================================================================
