------------------------------- MODULE Codec --------------------------------
(* Reading and writing of fields in a buffer: read_bytes! and write_bytes!. *)
(* Properties C01, C02, C03.                                                *)
EXTENDS Bits, TLC
VARIABLES buf,      \* content of the buffer, without the bytes around it; of
                    \* a large buffer the bytes from some position on, where
                    \* offsets are relative to it
          obs       \* last observation
vars == <<buf, obs>>

\* The defect F3 which is not repaired: reading the value -1 of a signed
\* field of one bit yields 1.  All other operations are as specified.
KnownOneBit(t, w) == Signed(t) /\ w = 1

Val(v) == [k |-> "val", v |-> v, c |-> TRUE]

Load(b) == buf' = b /\ obs' = [k |-> "ok"]

Write(t, o, w, v) ==
    /\ buf' = WriteField(buf, t, o, w, v)
    /\ obs' = [k |-> "ok", b |-> buf', c |-> TRUE]

Read(t, o, w) ==
    /\ UNCHANGED buf
    /\ obs' = Val(ReadField(buf, t, o, w))

ReadKnown(t, o, w) ==    \* F3
    /\ KnownOneBit(t, w) /\ BitOf(buf, o) = 1
    /\ UNCHANGED buf
    /\ obs' = Val(<<1, 0, 0, 0, 0, 0, 0, 0>>)

Do(o) == CASE o.op = "load" -> Load(o.b)
           [] o.op \in {"w", "wdo"} -> Write(o.t, o.o, o.w, o.v)
           [] o.op \in {"r", "rdo"} -> Read(o.t, o.o, o.w)
           [] o.op = "rd" -> Read(o.t, 0, TypeBits(o.t))
           [] o.op = "reset" -> buf' = <<>> /\ obs' = [k |-> "ok"]
Known(o) == IF o.op = "r" THEN ReadKnown(o.t, o.o, o.w) ELSE FALSE

Init == buf = <<>> /\ obs = [k |-> "ok"]
=============================================================================
