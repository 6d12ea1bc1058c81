---------------------------- MODULE MC_Manifest ----------------------------
(* Design check over all small manifests: chunks of a bundle tile it, chunk  *)
(* places are disjoint, distinct files have distinct paths.                  *)
EXTENDS Manifest
VARIABLE m
Sizes == {1, 2}
Names == {"a", "b"}
ChunkSeqs(b) == UNION {[1..n -> Sizes] : n \in 0..3}
Bundle(b, sizes) == [id |-> b, chunks |-> [k \in 1..Len(sizes) |-> [id |-> b \o SubSeq("xyz", k, k), size |-> sizes[k], target |-> "9"]]]
Dirs == {<< >>, <<[id |-> "1", parent |-> "", name |-> "a"]>>,
         <<[id |-> "1", parent |-> "", name |-> "a"], [id |-> "2", parent |-> "1", name |-> "a"]>>}
DirIds(d) == {""} \cup {x.id : x \in RangeOf(d)}
Init == \E s1 \in ChunkSeqs("p"), s2 \in ChunkSeqs("q"), d \in Dirs :
          LET bs == <<Bundle("p", s1), Bundle("q", s2)>>
              ids == {c.id : c \in RangeOf(bs[1].chunks) \cup RangeOf(bs[2].chunks)}
          IN \E n1 \in Names, n2 \in Names, d1 \in DirIds(d), d2 \in DirIds(d), cs \in UNION {[1..n -> ids] : n \in 0..1} :
               /\ <<n1, d1>> /= <<n2, d2>>
               /\ m = [bundles |-> bs, flags |-> << >>, dirs |-> d,
                       files |-> <<[name |-> n1, dir |-> d1, size |-> "0", mask |-> << >>, chunks |-> cs, link |-> ""],
                                   [name |-> n2, dir |-> d2, size |-> "0", mask |-> << >>, chunks |-> << >>, link |-> ""]>>]
Next == UNCHANGED m
Spec == Init /\ [][Next]_m

Tiles == \A b \in RangeOf(m.bundles) :
    LET mine == {ch \in ChunkTable(m) : ch.bundle = b.id}
        total == SumSizes(b.chunks, Len(b.chunks))
    IN \A x \in 0..(total-1) : Cardinality({ch \in mine : ch.offset <= x /\ x < ch.offset + ch.size}) = 1
DistinctPaths == Cardinality({f.path : f \in DecodedFiles(m)}) = 2
=============================================================================
