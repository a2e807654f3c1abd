-------------------------------- MODULE Bits --------------------------------
(* Bits of byte strings.  A byte has BYTE bits; BYTE = 8 but for the scaled *)
(* down model of the access algorithm.  Bit i of a byte string is bit       *)
(* (i % BYTE), counted from the least significant, of byte (i \div BYTE).   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANT BYTE

Pow2(k) == 2^k

BitOf(bs, i) == (bs[(i \div BYTE) + 1] \div Pow2(i % BYTE)) % 2

\* the w bits at bit offset o, least significant first
BitsAt(bs, o, w) == [k \in 1..w |-> BitOf(bs, o + k - 1)]

\* bits as bytes
RECURSIVE SumBits(_, _, _)
SumBits(bits, j, k) ==     \* value of bits j*BYTE+1+k..(j+1)*BYTE
    IF k = BYTE THEN 0
    ELSE (IF j * BYTE + k + 1 <= Len(bits) THEN bits[j * BYTE + k + 1] * Pow2(k) ELSE 0)
         + SumBits(bits, j, k + 1)
Pack(bits, n) == [j \in 1..n |-> SumBits(bits, j - 1, 0)]

\* extension of bits to width W, by zeros or by the sign
Extend(bits, W, signed) ==
    [k \in 1..W |-> IF k <= Len(bits) THEN bits[k]
                    ELSE IF signed /\ bits # <<>> THEN bits[Len(bits)] ELSE 0]

\* byte j (from 1) of bs after the bits at offset o were replaced
RECURSIVE NewByte(_, _, _, _, _)
NewByte(bs, o, bits, j, k) ==
    IF k = BYTE THEN 0
    ELSE LET i == (j - 1) * BYTE + k
             b == IF i >= o /\ i < o + Len(bits) THEN bits[i - o + 1] ELSE BitOf(bs, i)
         IN b * Pow2(k) + NewByte(bs, o, bits, j, k + 1)

Replace(bs, o, bits) ==
    LET first == o \div BYTE + 1
        last == (o + Len(bits) - 1) \div BYTE + 1
    IN [j \in 1..Len(bs) |-> IF j < first \/ j > last THEN bs[j] ELSE NewByte(bs, o, bits, j, 0)]

-----------------------------------------------------------------------------
(* Fields: a type, an offset and a width.  Values are 64 bit in two's       *)
(* complement, as 8 bytes.                                                  *)
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
TypeBits(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16
                 [] t \in {"i32", "u32"} -> 32 [] t \in {"i64", "u64"} -> 64 [] t = "bool" -> 8

\* value of a field
ReadField(bs, t, o, w) ==
    IF t = "bool" THEN <<IF \E k \in 1..w : BitsAt(bs, o, w)[k] = 1 THEN 1 ELSE 0, 0, 0, 0, 0, 0, 0, 0>>
    ELSE Pack(Extend(BitsAt(bs, o, w), 64, Signed(t)), 8)
\* all bytes after writing a field: only the low w bits of v are stored
WriteField(bs, t, o, w, v) == Replace(bs, o, BitsAt(v, 0, w))

\* v can be stored in the field without loss
Fits(t, w, v) == v = Pack(Extend(BitsAt(v, 0, w), 64, Signed(t)), 8)

\* small non-negative integer as 8 bytes
FromInt(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216, 0, 0, 0, 0>>
=============================================================================
