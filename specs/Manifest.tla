------------------------------ MODULE Manifest ------------------------------
(* What a release manifest describes. A manifest m is a record               *)
(*   bundles : Seq([id, chunks : Seq([id, size, target])])                   *)
(*   flags   : Seq([id, name]),  dirs : Seq([id, parent, name])              *)
(*   files   : Seq([name, dir, size, mask (Seq of flag ids), chunks, link])  *)
(* ids are strings, "" is the absent directory or parent.                    *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}

RECURSIVE SumSizes(_, _)
SumSizes(chunks, n) == IF n = 0 THEN 0 ELSE chunks[n].size + SumSizes(chunks, n - 1)

(* All chunks with their place *)
ChunkTable(m) ==
    {[id |-> m.bundles[b].chunks[k].id, bundle |-> m.bundles[b].id,
      offset |-> SumSizes(m.bundles[b].chunks, k - 1),
      size |-> m.bundles[b].chunks[k].size, target |-> m.bundles[b].chunks[k].target]
       : <<b, k>> \in {p \in (1..Len(m.bundles)) \X (1..64) : p[2] <= Len(m.bundles[p[1]].chunks)}}

ChunkOf(table, id) == CHOOSE ch \in table : ch.id = id

DirOf(m, id) == CHOOSE d \in RangeOf(m.dirs) : d.id = id

RECURSIVE FullPath(_, _, _)
FullPath(m, name, dir) ==
    IF dir = "" THEN name
    ELSE LET d == DirOf(m, dir) IN FullPath(m, d.name \o "/" \o name, d.parent)

FlagName(m, id) == (CHOOSE f \in RangeOf(m.flags) : f.id = id).name

DecodedFile(m, table, f) ==
    [path |-> FullPath(m, f.name, f.dir), size |-> f.size, link |-> f.link,
     flags |-> [i \in 1..Len(f.mask) |-> FlagName(m, f.mask[i])],
     chunks |-> [i \in 1..Len(f.chunks) |-> ChunkOf(table, f.chunks[i])]]

DecodedFiles(m) == LET table == ChunkTable(m) IN {DecodedFile(m, table, f) : f \in RangeOf(m.files)}

WellFormed(m) ==
    /\ \A f \in RangeOf(m.files) : \A id \in RangeOf(f.chunks) : \E ch \in ChunkTable(m) : ch.id = id
    /\ Cardinality({ch.id : ch \in ChunkTable(m)}) = Cardinality(ChunkTable(m))
    /\ Cardinality({f.path : f \in DecodedFiles(m)}) = Len(m.files)
=============================================================================
