-------------------------------- MODULE Wide --------------------------------
(* Arrays and multiarrays larger than 2^32 elements or bytes: their views,  *)
(* slices, iterators and debug output, and vectors.  Numbers are given as   *)
(* bytes, least significant first; most elements are zero and most buckets  *)
(* are empty.  Properties C05, C08, C09 and C20.                            *)
EXTENDS Elements, Numbers
VARIABLES s,      \* layout of the elements, or variadic struct of the items
          kind,   \* av: array view, mv: view of a multiarray, vec: vector
          len,    \* number of elements
          els,    \* elements which are not zero, or buckets which are not empty: <<index, value>>
          views,  \* ranges of elements: <<from, to>>
          iters,  \* ranges of remaining elements
          obs
vars == <<s, kind, len, els, views, iters, obs>>
Panic == [k |-> "panic"]

-----------------------------------------------------------------------------
StructOfTag(t) == (CHOOSE x \in {VariadicOf[s].variants[i] : i \in DOMAIN VariadicOf[s].variants} : x[1] = t)[2]
StoredItem(nm, x) == LET st == (CHOOSE y \in {VariadicOf[nm].variants[i] : i \in DOMAIN VariadicOf[nm].variants} : y[1] = x[1])[2]
                     IN <<x[1]>> \o StoredEl(st, Tail(x))
StoredVal(o, v) == IF o.kind = "mv" THEN [j \in 1..Len(v) |-> StoredItem(o.s, v[j])] ELSE StoredEl(o.s, v)
Zero == IF kind = "mv" THEN <<>> ELSE ZeroEl(s)
RECURSIVE Lookup(_, _)
Lookup(es, i) == IF es = <<>> THEN Zero ELSE IF Head(es)[1] = i THEN Head(es)[2] ELSE Lookup(Tail(es), i)
El(i) == Lookup(els, i)

Start(o) == /\ s' = o.s /\ kind' = o.kind /\ len' = Num(o.len)
            /\ els' = [i \in 1..Len(o.el) |-> <<Num(o.el[i][1]), StoredVal(o, o.el[i][2])>>]
            /\ views' = <<<<Small(0), Num(o.len)>>>>
            /\ iters' = <<>>
            /\ obs' = [k |-> "ok"]
Look(x) == UNCHANGED <<s, kind, len, els, views, iters>> /\ obs' = x
PutReg(regs, r, x) == IF r < Len(regs) THEN [regs EXCEPT ![r + 1] = x] ELSE Append(regs, x)

View(x) == LET n == Diff(x[2], x[1])
               none == x[1] = x[2]
           IN [k |-> "view", n |-> Eight(n), empty |-> none, first |-> IF none THEN <<>> ELSE <<El(x[1])>>,
               last |-> IF none THEN <<>> ELSE <<El(Diff(x[2], Small(1)))>>]
State(o) == Look(View(views[o.r + 1]))
At(o) == LET x == views[o.r + 1]
             i == Plus(x[1], Num(o.i))
         IN Look(IF Below(i, x[2]) THEN [k |-> "el", v |-> El(i)] ELSE Panic)
Slice(o) ==
    LET x == views[o.r + 1]
        n == Diff(x[2], x[1])
        a == CASE o.sk = "unb" -> Small(0) [] o.sk = "inc" -> Num(o.s) [] o.sk = "exc" -> Succ(Num(o.s))
        b == CASE o.ek = "unb" -> n [] o.ek = "inc" -> Succ(Num(o.e)) [] o.ek = "exc" -> Num(o.e)
        y == <<Plus(x[1], a), Plus(x[1], b)>>
    IN IF Upto(a, b) /\ Upto(b, n)
       THEN /\ views' = PutReg(views, o.q, y)
            /\ UNCHANGED <<s, kind, len, els, iters>>
            /\ obs' = View(y)
       ELSE Look(Panic)

Iter(o) == /\ iters' = PutReg(iters, o.x, views[o.r + 1])
           /\ UNCHANGED <<s, kind, len, els, views>>
           /\ obs' = [k |-> "ok"]
Clone(o) == /\ iters' = PutReg(iters, o.x, iters[o.y + 1])
            /\ UNCHANGED <<s, kind, len, els, views>>
            /\ obs' = [k |-> "ok"]
\* one step of an iterator and the number of elements which remain
Step(o, back) ==
    LET x == iters[o.x + 1]
        none == x[1] = x[2]
        y == IF none THEN x ELSE IF back THEN <<x[1], Diff(x[2], Small(1))>> ELSE <<Succ(x[1]), x[2]>>
    IN /\ iters' = [iters EXCEPT ![o.x + 1] = y]
       /\ UNCHANGED <<s, kind, len, els, views>>
       /\ obs' = [k |-> "step", v |-> IF none THEN <<>> ELSE <<El(IF back THEN y[2] ELSE x[1])>>,
                  n |-> Eight(Diff(y[2], y[1])), hint |-> TRUE]

-----------------------------------------------------------------------------
(* Vectors: reg 0 is the vector                                             *)
Vec == [k |-> "vec", n |-> Eight(len'), size |-> Eight(Times(len', SizeOf(s))), view |-> Eight(len'), bytes |-> Eight(Times(len', SizeOf(s)))]
Grow(o) == /\ len' = Succ(len)
           /\ els' = <<<<len, StoredEl(s, o.v)>>>> \o els
           /\ views' = <<<<Small(0), len'>>>>
           /\ UNCHANGED <<s, kind, iters>>
           /\ obs' = Vec
Set(o) == /\ UNCHANGED <<s, kind, len, views, iters>>
          /\ IF Below(Num(o.i), len)
             THEN els' = <<<<Num(o.i), StoredEl(s, o.v)>>>> \o els /\ obs' = Vec
             ELSE els' = els /\ obs' = Panic

-----------------------------------------------------------------------------
PREVIEW == 10
List(strs) == "[" \o Join(strs, ", ") \o "]"
ShowItem(x) == ShowEl(StructOfTag(x[1]), Tail(x))
ShowItems(items) == List([i \in 1..Len(items) |-> ShowItem(items[i])])
\* more than 10 elements
ShowRange(name, x) ==
    name \o " { len: " \o DecimalU(Eight(Diff(x[2], x[1]))) \o ", data: "
    \o List([i \in 1..PREVIEW |->
            LET e == El(Plus(x[1], Small(i - 1)))
            IN IF kind = "mv" THEN "(" \o DecimalU(FromInt(i - 1)) \o ", " \o ShowItems(e) \o ")" ELSE ShowEl(s, e)])
    \o "... }"
Name == CASE kind = "av" -> "ArrayView" [] kind = "mv" -> "MultiArrayView" [] kind = "vec" -> "Vector"
Do(o) == CASE o.op = "reset" -> Start(o)
           [] o.op = "state" -> State(o)
           [] o.op = "at" -> At(o)
           [] o.op = "slice" -> Slice(o)
           [] o.op = "iter" -> Iter(o)
           [] o.op = "clone" -> Clone(o)
           [] o.op = "next" -> Step(o, FALSE)
           [] o.op = "back" -> Step(o, TRUE)
           [] o.op = "dbg" -> Look([k |-> "dbg", s |-> ShowRange(Name, views[o.r + 1])])
           [] o.op = "idbg" -> Look([k |-> "dbg", s |-> ShowRange((IF kind = "mv" THEN "MultiArrayView" ELSE "ArrayView") \o "Iter", iters[o.x + 1])])
           [] o.op = "grow" -> Grow(o)
           [] o.op = "set" -> Set(o)
Init == s = "V1" /\ kind = "av" /\ len = Small(0) /\ els = <<>> /\ views = <<>> /\ iters = <<>> /\ obs = [k |-> "ok"]
=============================================================================
