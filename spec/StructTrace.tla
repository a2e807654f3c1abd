---------------------------- MODULE StructTrace -----------------------------
(* Validates recorded uses of struct handles, for each property by what it  *)
(* talks about.  For all but C03 the registers hold what was observed.      *)
EXTENDS Struct, TraceIO
VARIABLES l, vals      \* vals: values of the fields of each register
tvars == <<vars, l, vals>>

Exact(e) == UNCHANGED vals /\ Do(e.op) /\ Matches(l, obs', e.obs)

PutV(r, x) == IF r = Len(vals) THEN Append(vals, x) ELSE [vals EXCEPT ![r + 1] = x]
Check(cond, x) == IF cond THEN TRUE ELSE Expect(l, x) /\ FALSE
Bit(b, i) == BitOf(b, i)
InField(f, i) == i >= f[3] /\ i < f[3] + f[4]
SameOutside(b, c, s, fs) == /\ Len(b) = Len(c)
                            /\ \A i \in 0..(8 * Len(b) - 1) : Bit(b, i) = Bit(c, i) \/ \E n \in fs : InField(FieldsOf(s)[n], i)
Observed(e, r, s, isbuf) == /\ e.obs.k = "st"
                            /\ vals' = PutV(r, e.obs.f)
                            /\ regs' = Put(r, [s |-> s, b |-> e.obs.b, buf |-> isbuf])

\* C01, C02, C04: values of fields and unused bits
Abstract(e) ==
  LET o == e.op IN
  /\ obs' = e.obs
  /\ IF o.op = "reset" THEN regs' = <<>> /\ vals' = <<>>
     ELSE CASE o.op \in {"new", "raw"} ->
            /\ Observed(e, o.r, o.s, o.op = "new")
            /\ Check(o.op = "new" /\ PROP = "C04" =>
                       \A i \in 1..Len(e.obs.f) : e.obs.f[i] = FromInt(0), [all |-> "zero"])
            /\ Check(PROP \in {"C01", "C04"} => e.obs.c, [c |-> TRUE])
       [] o.op = "set" ->
            LET x == regs[o.r + 1]
                f == FieldsOf(x.s)[o.f + 1]
                want == [vals[o.r + 1] EXCEPT ![o.f + 1] = o.v]
            IN /\ Check(e.obs.k = "st", [k |-> "st"])
               /\ Observed(e, o.r, x.s, x.buf)
               /\ CASE PROP \in {"C01", "C04"} ->
                         Check((Fits(Under(f[2]), f[4], o.v) => e.obs.f = want) /\ e.obs.c, [f |-> want])
                    [] OTHER ->
                         Check(/\ e.obs.c
                               /\ SameOutside(e.obs.b, x.b, x.s, {o.f + 1})
                               /\ \A i \in 1..Len(want) : i # o.f + 1 => e.obs.f[i] = want[i],
                               [outside |-> x.b, f |-> want])
       [] o.op = "get" ->
            /\ Check(e.obs.k = "st" /\ e.obs.f = vals[o.r + 1] /\ e.obs.b = regs[o.r + 1].b /\ e.obs.c, [f |-> vals[o.r + 1], b |-> regs[o.r + 1].b])
            /\ UNCHANGED <<regs, vals>>
       [] o.op = "copy" ->
            LET x == regs[o.r + 1] IN
            /\ Check(e.obs.k = "st", [k |-> "st"])
            /\ Observed(e, o.r, x.s, x.buf)
            /\ Check(/\ e.obs.f = vals[o.q + 1]
                     /\ e.obs.c
                     /\ SameOutside(e.obs.b, x.b, x.s, 1..Len(e.obs.f)), [f |-> vals[o.q + 1], outside |-> x.b])
       [] o.op = "eq" ->
            /\ Matches(l, [k |-> "bool", v |-> vals[o.r + 1] = vals[o.q + 1]], e.obs)
            /\ UNCHANGED <<regs, vals>>
       [] o.op = "dbg" ->
            /\ Matches(l, DebugOf(regs[o.r + 1], vals[o.r + 1]), e.obs)
            /\ UNCHANGED <<regs, vals>>

TInit == Init /\ l = 1 /\ vals = <<>>
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ IF PROP = "C03" THEN Exact(Trace[l]) ELSE Abstract(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
Post == Accepted(Len(Trace))
=============================================================================
