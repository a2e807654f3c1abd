------------------------------ MODULE Elements ------------------------------
(* Elements of vectors and items of multivectors.  The values of their      *)
(* fields are small non-negative integers; an element is the sequence of    *)
(* them.  Bytes are given sparsely: length and non-zero bytes.              *)
EXTENDS Layouts
NumFields(s) == Len(FieldsOf(s))
ZeroEl(s) == [i \in 1..NumFields(s) |-> 0]

\* fields which were written hold the low bits of the value (all types are unsigned)
LowBits(n, w) == IF w >= 31 THEN n ELSE n % Pow2(w)
\* fields which were not written are zero
StoredEl(s, v) == [i \in 1..NumFields(s) |-> IF i > Len(v) THEN 0 ELSE LowBits(v[i], FieldsOf(s)[i][4])]
\* v was written after w
Over(v, w) == [i \in 1..Max({Len(v), Len(w)}) |-> IF i <= Len(v) THEN v[i] ELSE w[i]]

PlainStructs == {n \in DOMAIN StructOf : \A i \in DOMAIN FieldsOf(n) : ~ IsEnum(FieldsOf(n)[i][2])}
FirstByte(f) == f[3] \div 8
LastByte(f) == (f[3] + f[4] - 1) \div 8
\* byte positions which belong to fields, in order
Touched == [s \in PlainStructs |->
    SetToSortSeq(UNION {FirstByte(FieldsOf(s)[i])..LastByte(FieldsOf(s)[i]) : i \in 1..NumFields(s)}, LAMBDA x, y : x < y)]
\* for each of them the fields which contribute to it: number, byte of the shifted value and shift
Parts == [s \in PlainStructs |-> [j \in DOMAIN Touched[s] |->
    LET p == Touched[s][j]
        fs == {i \in 1..NumFields(s) : FirstByte(FieldsOf(s)[i]) <= p /\ p <= LastByte(FieldsOf(s)[i])}
        seq == SetToSortSeq(fs, LAMBDA x, y : x < y)
    IN [k \in DOMAIN seq |-> <<seq[k], p - FirstByte(FieldsOf(s)[seq[k]]), FieldsOf(s)[seq[k]][3] % 8>>]]]
\* byte j of n * 2^shift
ShiftedByte(n, j, shift) == IF j = 0 THEN (n % Pow2(8 - shift)) * Pow2(shift)
                            ELSE IF 8 * j - shift >= 31 THEN 0 ELSE (n \div Pow2(8 * j - shift)) % 256
RECURSIVE SumParts(_, _, _)
SumParts(parts, v, k) == IF k > Len(parts) THEN 0
                         ELSE ShiftedByte(v[parts[k][1]], parts[k][2], parts[k][3]) + SumParts(parts, v, k + 1)
\* non-zero bytes of an element which starts at a position
SparseEl(s, v, at) ==
    LET all == [j \in 1..Len(Touched[s]) |-> <<at + Touched[s][j], SumParts(Parts[s][j], v, 1)>>]
    IN SelectSeq(all, LAMBDA x : x[2] # 0)
SparseEls(s, els, at) == FlattenSeq([i \in 1..Len(els) |-> SparseEl(s, els[i], at + (i - 1) * SizeOf(s))])
SparseSeq(s, els) == [n |-> Len(els) * SizeOf(s), nz |-> SparseEls(s, els, 0)]

\* bytes of a non-negative integer, sparsely
RECURSIVE SparseInt(_, _)
SparseInt(n, at) == IF n = 0 THEN <<>>
                    ELSE (IF n % 256 = 0 THEN <<>> ELSE <<<<at, n % 256>>>>) \o SparseInt(n \div 256, at + 1)
Shift(nz, d) == [i \in 1..Len(nz) |-> <<nz[i][1] + d, nz[i][2]>>]
\* the stored resource: size, data, padding
Framed(x) == [n |-> x.n + 16, nz |-> SparseInt(x.n, 0) \o Shift(x.nz, 8)]

ShowEl(s, v) == ShowStruct(s, [i \in 1..Len(v) |-> FromInt(v[i])])
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
=============================================================================
