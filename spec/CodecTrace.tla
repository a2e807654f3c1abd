----------------------------- MODULE CodecTrace -----------------------------
(* Validates recorded accesses.  Each property constrains only what it      *)
(* talks about: C03 the exact bits, C02 the bits outside of the field, C01  *)
(* the values read back.                                                    *)
EXTENDS Codec, TraceIO
VARIABLES l,
          written,    \* C01: fields written and not overwritten since, with their values
          seen        \* C02: results of accesses by the content of the field
tvars == <<vars, l, written, seen>>

Disjoint(f, o, w) == f.o + f.w <= o \/ o + w <= f.o
Low(v, w) == BitsAt(v, 0, w)

\* C03: exactly as specified
Exact(e) == /\ UNCHANGED <<written, seen>>
            /\ \/ Do(e.op) /\ Matches(l, obs', e.obs)
               \/ Known(e.op) /\ e.obs.k = "val" /\ Same(obs', e.obs)

\* C01: registers, as seen by their values only
Registers(e) ==
  LET o == e.op IN
  /\ UNCHANGED <<buf, seen>>
  /\ obs' = e.obs
  /\ CASE o.op \in {"load", "reset"} -> written' = {}
       [] o.op \in {"w", "wdo"} ->
            /\ e.obs.k = "ok"
            /\ written' = {f \in written : Disjoint(f, o.o, o.w)}
                 \cup (IF Fits(o.t, o.w, o.v) THEN {[t |-> o.t, o |-> o.o, w |-> o.w, v |-> o.v]} ELSE {})
       [] o.op \in {"r", "rdo"} ->
            /\ UNCHANGED written
            /\ e.obs.k = "val"
            /\ \A f \in written : f.t = o.t /\ f.o = o.o /\ f.w = o.w =>
                 \/ e.obs.v = f.v
                 \/ /\ KnownOneBit(o.t, o.w) /\ f.v # FromInt(0) /\ e.obs.v = FromInt(1)
                    /\ KnownFinding("F3", "reading -1 from a signed field of one bit returns 1")
                 \/ Expect(l, [v |-> f.v]) /\ FALSE
       [] o.op = "rd" -> UNCHANGED written /\ e.obs.k = "val"

\* C02: accesses depend on and change the bits of the field only
Frame(e) ==
  LET o == e.op IN
  /\ obs' = e.obs
  /\ UNCHANGED written
  /\ CASE o.op = "reset" -> buf' = <<>> /\ seen' = {}
       [] o.op = "load" -> buf' = o.b /\ UNCHANGED seen
       [] o.op \in {"w", "wdo"} ->
            /\ IF e.obs.k = "ok" THEN TRUE ELSE Expect(l, [k |-> "ok"]) /\ FALSE
            /\ buf' = e.obs.b
            /\ IF /\ e.obs.c
                  /\ Len(e.obs.b) = Len(buf)
                  /\ Replace(e.obs.b, o.o, BitsAt(buf, o.o, o.w)) = buf
               THEN TRUE ELSE Expect(l, [outside |-> buf]) /\ FALSE
            \* only the low bits of the value matter
            /\ LET key == <<buf, o.t, o.o, o.w, Low(o.v, o.w)>> IN
                 /\ \A s \in seen : s.key = key => s.v = e.obs.b \/ (Expect(l, s.v) /\ FALSE)
                 /\ seen' = seen \cup {[key |-> key, v |-> e.obs.b]}
       [] o.op \in {"r", "rdo", "rd"} ->
            /\ UNCHANGED buf
            /\ e.obs.k = "val"
            /\ e.obs.c
            /\ LET w == IF o.op # "rd" THEN o.w ELSE TypeBits(o.t)
                   p == IF o.op # "rd" THEN o.o ELSE 0
                   key == <<o.t, p, w, BitsAt(buf, p, w)>>
               IN /\ \A s \in seen : s.key = key => s.v = e.obs.v \/ (Expect(l, s.v) /\ FALSE)
                  /\ seen' = seen \cup {[key |-> key, v |-> e.obs.v]}

TInit == Init /\ l = 1 /\ written = {} /\ seen = {}
TNext == /\ l <= Len(Trace)
         /\ l' = l + 1
         /\ CASE PROP = "C01" -> Registers(Trace[l])
              [] PROP = "C02" -> Frame(Trace[l])
              [] OTHER -> Exact(Trace[l])
TSpec == TInit /\ [][TNext]_tvars
Post == Accepted(Len(Trace))
=============================================================================
