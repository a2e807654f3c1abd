------------------------------- MODULE Vector -------------------------------
(* Vectors of structs.  Property C05.                                       *)
EXTENDS Elements
VARIABLES s,       \* layout of the elements
          regs,    \* vectors: elements and number of elements there is space for
          obs
vars == <<s, regs, obs>>

State(x) == [k |-> "vec", len |-> Len(x.els), size |-> Len(x.els) * SizeOf(s), el |-> x.els,
             by |-> SparseSeq(s, x.els), c |-> TRUE]
Put(r, x) == IF r = Len(regs) THEN Append(regs, x) ELSE [regs EXCEPT ![r + 1] = x]
Vec(els, cap) == [els |-> els, cap |-> Max2(cap, Len(els))]
InRange(o, x, i) == "big" \notin DOMAIN o /\ i < Len(x.els)

Reset(n) == s' = n /\ regs' = <<>> /\ obs' = [k |-> "ok"]
New(r, n) == /\ regs' = Put(r, Vec([i \in 1..Max2(n, 0) |-> ZeroEl(s)], 0))
             /\ UNCHANGED s
             /\ obs' = State(regs'[r + 1])
\* may move the data unless there is space
Grow(r, v, moved) ==
    LET x == regs[r + 1]
        y == Vec(Append(x.els, StoredEl(s, v)), x.cap)
    IN /\ moved => x.cap <= Len(x.els)
       /\ regs' = Put(r, y)
       /\ UNCHANGED s
       /\ obs' = [k |-> "grow", zero |-> TRUE, moved |-> moved, st |-> State(y)]
Set(o) ==
    LET x == regs[o.r + 1]
        f == FieldsOf(s)[o.f + 1]
        y == IF InRange(o, x, o.i) THEN Vec([x.els EXCEPT ![o.i + 1][o.f + 1] = LowBits(o.v, f[4])], x.cap) ELSE x
    IN /\ regs' = Put(o.r, y)
       /\ UNCHANGED s
       /\ obs' = [k |-> "set", res |-> IF InRange(o, x, o.i) THEN "ok" ELSE "panic", st |-> State(y)]
At(o) ==
    LET x == regs[o.r + 1] IN
    /\ UNCHANGED <<s, regs>>
    /\ obs' = IF InRange(o, x, o.i) THEN [k |-> "at", res |-> "ok", v |-> x.els[o.i + 1]]
              ELSE [k |-> "at", res |-> "panic", v |-> <<>>]
Reserve(r, n) == /\ regs' = Put(r, Vec(regs[r + 1].els, Max2(regs[r + 1].cap, Len(regs[r + 1].els) + n)))
                 /\ UNCHANGED s
                 /\ obs' = State(regs[r + 1])
\* vectors which are larger than the address space cannot be created, nor is space reserved for them
TooLarge(r) == UNCHANGED <<s, regs>> /\ obs' = [k |-> "huge", res |-> "panic", st |-> State(regs[r + 1])]
Clone(r, q) == /\ regs' = Put(r, Vec(regs[q + 1].els, 0))
               /\ UNCHANGED s
               /\ obs' = State(regs[q + 1])
\* element i of r := element j of q
CopyEl(r, i, q, j) == /\ regs' = [regs EXCEPT ![r + 1].els[i + 1] = regs[q + 1].els[j + 1]]
                      /\ UNCHANGED s
                      /\ obs' = State(regs'[r + 1])
Look(r) == UNCHANGED <<s, regs>> /\ obs' = State(regs[r + 1])

Do(o) == CASE o.op = "reset" -> Reset(o.s)
           [] o.op = "new" -> New(o.r, o.n)
           [] o.op = "grow" -> \E moved \in BOOLEAN : Grow(o.r, o.v, moved)
           [] o.op = "set" -> Set(o)
           [] o.op = "at" -> At(o)
           [] o.op = "reserve" -> Reserve(o.r, o.n)
           [] o.op = "huge" -> TooLarge(o.r)
           [] o.op = "clone" -> Clone(o.r, o.q)
           [] o.op = "copy" -> CopyEl(o.r, o.i, o.q, o.j)
           [] o.op = "state" -> Look(o.r)
Init == s = "V1" /\ regs = <<>> /\ obs = [k |-> "ok"]
=============================================================================
