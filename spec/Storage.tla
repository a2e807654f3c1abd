------------------------------- MODULE Storage ------------------------------
(* Resource storages: named byte strings, which are written and read        *)
(* through handles of directories.  Memory and file storages behave alike.  *)
(* Properties C10, C11, C14, C18 and C19.                                   *)
EXTENDS Format, Numbers, Paths
VARIABLES st,       \* mem or file
          files,    \* content of each resource by its path
          sparse,   \* large resources: length and header, 8 bytes each
          handles,  \* directories: prefixes of paths
          streams,  \* open streams: path and position
          obs
vars == <<st, files, sparse, handles, streams, obs>>
Missing == [k |-> "raw", e |-> "notfound", b |-> <<>>]
\* data handed out is unchanged
Ok(x) == obs' = x @@ [p |-> TRUE]
Empty == [x \in {} |-> <<>>]
With(f, key, v) == [x \in DOMAIN f \cup {key} |-> IF x = key THEN v ELSE f[x]]
Without(f, key) == [x \in DOMAIN f \ {key} |-> f[x]]

Path(o) == Normal(handles[IF "h" \in DOMAIN o THEN o.h + 1 ELSE 1] \o o.n)
Start(o) == /\ st' = o.st /\ files' = Empty /\ sparse' = Empty /\ handles' = <<"">> /\ streams' = Empty
            /\ obs' = [k |-> "ok"]
Sub(o) == LET d == Prefix(handles[o.h + 1] \o o.d) IN
          /\ handles' = IF o.q < Len(handles) THEN [handles EXCEPT ![o.q + 1] = d] ELSE Append(handles, d)
          /\ UNCHANGED <<st, files, sparse, streams>>
          /\ Ok([k |-> "ok"])
SetFile(key, b) == files' = With(files, key, b) /\ sparse' = Without(sparse, key)
Write(o) == /\ files' = With(With(files, Path(o), Frame(o.b)), Path(o) \o ".schema", o.sch)
            /\ sparse' = Without(sparse, Path(o))
            /\ UNCHANGED <<st, handles, streams>>
            /\ Ok([k |-> "ok"])
\* the stream is the content
PutFile(o) == /\ SetFile(Path(o), o.b)
              /\ UNCHANGED <<st, handles, streams>>
              /\ Ok([k |-> "ok"])
Open(o) == /\ SetFile(Path(o), <<>>)
           /\ streams' = With(streams, o.x, [key |-> Path(o), pos |-> 0])
           /\ UNCHANGED <<st, handles>>
           /\ Ok([k |-> "ok"])
\* content after writing at a position, which may be behind the end
Patch(b, pos, d) == IF d = <<>> THEN b
                    ELSE [i \in 1..(IF Len(b) > pos + Len(d) THEN Len(b) ELSE pos + Len(d)) |->
                            IF i > pos /\ i <= pos + Len(d) THEN d[i - pos] ELSE IF i <= Len(b) THEN b[i] ELSE 0]
StreamWrite(o) == LET x == streams[o.x]
                      pos == IF o.pos < 0 THEN x.pos ELSE o.pos
                  IN /\ files' = With(files, x.key, Patch(files[x.key], pos, o.b))
                     /\ streams' = With(streams, o.x, [x EXCEPT !.pos = pos + Len(o.b)])
                     /\ UNCHANGED <<st, sparse, handles>>
                     /\ Ok([k |-> "ok"])
StreamDrop(o) == /\ streams' = Without(streams, o.x)
                 /\ UNCHANGED <<st, files, sparse, handles>>
                 /\ Ok([k |-> "ok"])
\* another name for the same content, by other means than those of a storage
Link(o) == /\ SetFile(o.to, files[o.n])
           /\ UNCHANGED <<st, handles, streams>>
           /\ Ok([k |-> "ok"])
Look(x) == UNCHANGED <<st, files, sparse, handles, streams>> /\ Ok(x)

Has(key) == key \in DOMAIN files
Header(b) == [i \in 1..8 |-> IF i <= Len(b) THEN b[i] ELSE 0]
\* fresh: by a storage which was just opened on the same directory
OutcomeOf(key, expected) ==
    Kind(Has(key), Has(key \o ".schema"), FromInt(Len(files[key])), Header(files[key]), files[key \o ".schema"], expected)
\* the diff is specified by a relation
Read(o) ==
    LET key == Path(o)
        k == OutcomeOf(key, o.sch)
    IN Look([k |-> k, io |-> IF k = "io" THEN "notfound" ELSE "", name |-> IF k \in {"io", "sig"} THEN o.n ELSE "",
             diff |-> <<>>, b |-> IF k = "ok" THEN SubSeq(files[key], 9, Len(files[key]) - 8) ELSE <<>>])
Raw(o) == Look(IF Has(Path(o)) THEN [k |-> "raw", e |-> "", b |-> files[Path(o)]] ELSE Missing)
Exists(o) == Look([k |-> "bool", v |-> Has(Path(o)) \/ Path(o) \in DOMAIN sparse])
\* names in the order of characters: checked as set, order and length
Listed(names) == IF st = "file" THEN names = DOMAIN files \cup DOMAIN sparse ELSE names = {}

MakeSparse(o) == /\ sparse' = With(sparse, o.n, [len |-> o.lenb, hdr |-> o.hdrb, nz |-> <<>>])
                 /\ files' = With(Without(files, o.n), o.n \o ".schema", o.sch)
                 /\ UNCHANGED <<st, handles, streams>>
                 /\ Ok([k |-> "ok"])
ReadLen(o) == LET x == sparse[o.n]
                  k == Kind(TRUE, TRUE, x.len, x.hdr, files[o.n \o ".schema"], o.sch)
              IN Look([k |-> k, len |-> IF k = "ok" THEN DecimalU(Minus(x.len, FromInt(16), 0)) ELSE ""])
\* large data; nz: positions of bytes which are not zero
WriteLarge(o) == /\ sparse' = With(sparse, o.n, [len |-> Eight(Plus(Num(o.len), Small(16))), hdr |-> o.len, nz |-> o.nz])
                 /\ files' = With(Without(files, o.n), o.n \o ".schema", o.sch)
                 /\ UNCHANGED <<st, handles, streams>>
                 /\ Ok([k |-> "ok"])
RECURSIVE ByteAt(_, _)
ByteAt(nz, pos) == IF nz = <<>> THEN 0 ELSE IF Head(nz)[1] = pos THEN Head(nz)[2] ELSE ByteAt(Tail(nz), pos)
\* bytes at some positions, all of them within the data
ReadLarge(o) == LET x == sparse[o.n]
                    k == Kind(TRUE, TRUE, x.len, x.hdr, files[o.n \o ".schema"], o.sch)
                IN Look([k |-> k, len |-> IF k = "ok" THEN x.hdr ELSE <<>>, raw |-> x.len,
                         b |-> IF k = "ok" THEN [i \in DOMAIN o.at |-> ByteAt(x.nz, o.at[i])] ELSE <<>>])
\* operations which change nothing, neither resources nor anything else in the file system (C21)
Reading(o) == o.op \in {"sub", "read", "raw", "exists", "files", "readlen", "bigread", "readonly"}
\* resources which an operation may change (C23)
Own(o) == CASE o.op \in {"write", "bigwrite", "sparse"} -> {Path(o), Path(o) \o ".schema"}
            [] o.op \in {"put", "sopen"} -> {Path(o)}
            [] o.op = "swrite" -> {streams[o.x].key}
            [] o.op = "link" -> {o.to}
            [] OTHER -> {}
\* all but the list of files
Do(o) == CASE o.op = "reset" -> Start(o)
           [] o.op = "sub" -> Sub(o)
           [] o.op = "write" -> Write(o)
           [] o.op = "put" -> PutFile(o)
           [] o.op = "sopen" -> Open(o)
           [] o.op = "swrite" -> StreamWrite(o)
           [] o.op = "sdrop" -> StreamDrop(o)
           [] o.op = "read" -> Read(o)
           [] o.op = "raw" -> Raw(o)
           [] o.op = "link" -> Link(o)
           [] o.op = "exists" -> Exists(o)
           \* calls fail in the following operations, which only read
           [] o.op \in {"arm", "disarm"} -> Look([k |-> "ok"])
           [] o.op = "readonly" -> Look([k |-> "ok"])
           [] o.op = "sparse" -> MakeSparse(o)
           [] o.op = "bigwrite" -> WriteLarge(o)
           [] o.op = "bigread" -> ReadLarge(o)
           [] o.op = "readlen" -> ReadLen(o)
Init == st = "mem" /\ files = Empty /\ sparse = Empty /\ handles = <<"">> /\ streams = Empty /\ obs = [k |-> "ok"]
=============================================================================
