------------------------------- MODULE Window -------------------------------
(* The algorithm of read_bytes! and write_bytes! (bytereader.rs,            *)
(* bytewriter.rs, helper.rs): access of a field by a window of at most one  *)
(* word, plus one further byte for fields which straddle the window.  It is *)
(* scaled down to bytes of BYTE bits and words of WORD bytes, and compared  *)
(* with the bit-level specification in all cases.                           *)
EXTENDS Bits
CONSTANTS WORD,      \* bytes of the window (8 in the implementation)
          BYTES,     \* bytes of the buffer
          DEFECT     \* 0: as implemented; others: defects which were repaired
VARIABLES buf, o, w, v, done
vars == <<buf, o, w, v, done>>
WB == WORD * BYTE

Masked(x, n) == x % Pow2(n)
NumBytes == IF w + (o % BYTE) < WB THEN (w + (o % BYTE) + (BYTE - 1)) \div BYTE ELSE (w + (BYTE - 1)) \div BYTE
Byte(b, j) == b[j + 1]
RECURSIVE Word(_, _, _)
Word(b, first, n) == IF n = 0 THEN 0 ELSE Byte(b, first) + (Pow2(BYTE) * Word(b, first + 1, n - 1))
Or(x, y, shift) == \* x | y << shift, for x and y without common bits
    x + y * Pow2(shift)

ReadAlg ==
    LET first == o \div BYTE
        bit == o % BYTE
    IN IF w = 1 THEN (Byte(buf, first) \div Pow2(bit)) % 2
       ELSE LET result == Word(buf, first, NumBytes) \div Pow2(bit)
                have == NumBytes * BYTE - bit
                ninth == IF DEFECT = 1 THEN NumBytes ELSE first + NumBytes
            IN Masked(IF have < w THEN Masked(Or(Masked(result, have), Byte(buf, ninth), have % (NumBytes * BYTE)), WB) ELSE result, w)

ToBytes(x, n) == [j \in 1..n |-> (x \div Pow2(BYTE * (j - 1))) % Pow2(BYTE)]
\* bytes of x where the bits of y are set to z, bit-wise
Merge(x, z, from, n) == LET low == (x % Pow2(from)) IN
    low + (z * Pow2(from)) + (Pow2(from + n) * (x \div Pow2(from + n)))

WriteAlg ==
    LET first == o \div BYTE
        bit == o % BYTE
        n == NumBytes
        store == Masked(v, w)
        old == Word(buf, first, n)
        \* bits of the window which belong to the field
        inside == IF n * BYTE - bit < w THEN n * BYTE - bit ELSE w
        new == IF DEFECT = 2 /\ v >= Pow2(w)
               THEN Masked(Merge(old, Masked(v, WB - bit), bit, WB - bit), n * BYTE)   \* value was not masked
               ELSE Merge(old, Masked(store, inside), bit, inside)
        b1 == [j \in 1..Len(buf) |-> IF j > first /\ j <= first + n THEN ToBytes(new, n)[j - first] ELSE buf[j]]
        ninth == IF DEFECT = 1 THEN n + 1 ELSE first + n + 1
        rest == w - inside
    IN IF inside < w
       THEN [b1 EXCEPT ![ninth] = Merge(@, store \div Pow2(inside), 0, rest)]
       ELSE b1

RECURSIVE Value(_, _)
Value(bits, k) == IF k > Len(bits) THEN 0 ELSE (bits[k] * Pow2(k - 1)) + Value(bits, k + 1)
BitsOfInt(x, n) == [k \in 1..n |-> (x \div Pow2(k - 1)) % 2]

TypeOK == o + w <= BYTES * BYTE
\* reading yields the bits of the field
ReadsBits == ReadAlg = Value(BitsAt(buf, o, w), 1)
\* writing replaces the bits of the field
WritesBits == WriteAlg = Replace(buf, o, BitsOfInt(v, w))
\* the specification itself: what is written is read back, and other bits are unchanged
ReadBack == BitsAt(Replace(buf, o, BitsOfInt(v, w)), o, w) = BitsOfInt(v, w)
FrameOK == \A i \in 0..(BYTES * BYTE - 1) : i < o \/ i >= o + w =>
              BitOf(Replace(buf, o, BitsOfInt(v, w)), i) = BitOf(buf, i)
\* sign extension by shifts (extend_sign!) in types of WB bits equals extension by the sign bit
SignShift == LET x == Value(BitsAt(buf, o, w), 1)
                 up == Masked(x * Pow2(WB - w), WB)
                 neg == up >= Pow2(WB - 1)
                 down == up \div Pow2(WB - w) + (IF neg THEN Pow2(WB) - Pow2(w) ELSE 0)
             IN BitsOfInt(down, WB) = Extend(BitsAt(buf, o, w), WB, TRUE)

Init == /\ buf \in [1..BYTES -> 0..(Pow2(BYTE) - 1)]
        /\ w \in 1..WB
        /\ o \in 0..(BYTES * BYTE - 1)
        /\ o + w <= BYTES * BYTE
        /\ v \in 0..(Pow2(WB) - 1)
        /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ buf' = WriteAlg /\ UNCHANGED <<o, w, v>>
\* after the write the value is read back
AfterWrite == done => Masked(v, w) = ReadAlg
Spec == Init /\ [][Next]_vars
=============================================================================
