------------------------------ MODULE Layouts -------------------------------
(* The data layouts which the harness was compiled with (layouts.json).     *)
EXTENDS Bits, Json, IOUtils, TLC
L == JsonDeserialize(IOEnv.LAYOUTS)
RECURSIVE Find(_, _, _)
Find(seq, name, i) == IF seq[i].name = name THEN seq[i] ELSE Find(seq, name, i + 1)
\* structs by name
StructOf == [n \in {L.structs[i].name : i \in DOMAIN L.structs} |-> Find(L.structs, n, 1)]
IndexOf == [n \in {L.indexes[i].name : i \in DOMAIN L.indexes} |-> Find(L.indexes, n, 1)]
VariadicOf == [n \in {L.variadics[i].name : i \in DOMAIN L.variadics} |-> Find(L.variadics, n, 1)]
ArchiveOf == [n \in {L.archives[i].name : i \in DOMAIN L.archives} |-> Find(L.archives, n, 1)]

IsEnum(t) == t \in DOMAIN L.enums
Under(t) == IF IsEnum(t) THEN L.enums[t].repr ELSE t
\* a field is <<name, type, offset, width>>
FieldsOf(s) == StructOf[s].fields
SizeOf(s) == StructOf[s].size

GetField(b, f) == ReadField(b, Under(f[2]), f[3], f[4])
SetField(b, f, v) == WriteField(b, Under(f[2]), f[3], f[4], v)
Values(s, b) == [i \in 1..Len(FieldsOf(s)) |-> GetField(b, FieldsOf(s)[i])]
Zeros(n) == [i \in 1..n |-> 0]

-----------------------------------------------------------------------------
(* Debug output                                                             *)
Digit(n) == CASE n = 0 -> "0" [] n = 1 -> "1" [] n = 2 -> "2" [] n = 3 -> "3" [] n = 4 -> "4"
              [] n = 5 -> "5" [] n = 6 -> "6" [] n = 7 -> "7" [] n = 8 -> "8" [] n = 9 -> "9"
\* division by ten of an integer given as bytes, least significant first
RECURSIVE DivTen(_, _, _, _)
DivTen(b, i, rem, acc) ==
    IF i = 0 THEN [q |-> acc, r |-> rem]
    ELSE LET x == rem * 256 + b[i] IN DivTen(b, i - 1, x % 10, <<x \div 10>> \o acc)
RECURSIVE DecimalU(_)
DecimalU(b) == LET d == DivTen(b, Len(b), 0, <<>>)
               IN (IF \A i \in 1..Len(d.q) : d.q[i] = 0 THEN "" ELSE DecimalU(d.q)) \o Digit(d.r)
Negative(v) == v[8] >= 128
\* two's complement
RECURSIVE Negate(_, _)
Negate(v, carry) == IF v = <<>> THEN <<>>
                    ELSE LET x == 255 - Head(v) + carry IN <<x % 256>> \o Negate(Tail(v), x \div 256)
Decimal(v, signed) == IF signed /\ Negative(v) THEN "-" \o DecimalU(Negate(v, 1)) ELSE DecimalU(v)
\* variants of the enums are named by their value
Show(t, v) == IF IsEnum(t) THEN (IF Negative(v) /\ Signed(Under(t)) THEN "M" \o DecimalU(Negate(v, 1)) ELSE "P" \o DecimalU(v))
              ELSE IF t = "bool" THEN (IF v[1] = 0 THEN "false" ELSE "true")
              ELSE Decimal(v, Signed(t))
RECURSIVE Join(_, _)
Join(strs, sep) == IF strs = <<>> THEN "" ELSE IF Len(strs) = 1 THEN strs[1]
                   ELSE strs[1] \o sep \o Join(Tail(strs), sep)
\* vals: 8 bytes for each field
ShowStruct(s, vals) ==
    s \o " { " \o Join([i \in 1..Len(vals) |-> FieldsOf(s)[i][1] \o ": " \o Show(FieldsOf(s)[i][2], vals[i])], ", ") \o " }"
=============================================================================
