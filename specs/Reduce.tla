------------------------------- MODULE Reduce -------------------------------
(* Reduction of the paths P1 to common directories; paths are sequences of   *)
(* names, P1 is contained in P2, E are excluded paths.                       *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
IsPrefix(d, p) == Len(d) <= Len(p) /\ SubSeq(p, 1, Len(d)) = d
Dirs(P) == UNION {{SubSeq(p, 1, i) : i \in 1..(Len(p) - 1)} : p \in P}
Below(d, P) == {p \in P : IsPrefix(d, p)}
(* directories which may be returned, for all the paths below them           *)
Common(P1, P2, E) == {d \in Dirs(P1) : Below(d, P2) \subseteq P1 /\ Below(d, E) = {}}
Maximal(S) == {d \in S : ~\E x \in S : x # d /\ IsPrefix(x, d)}
Reduced(P1, P2, E) ==
    LET ds == Maximal(Common(P1, P2, E)) IN ds \cup {p \in P1 : ~\E d \in ds : IsPrefix(d, p)}

(* what the reduction guarantees                                             *)
Covers(R, P1) == \A p \in P1 : Cardinality({r \in R : IsPrefix(r, p)}) = 1
NothingElse(R, P1, P2, E) == \A r \in R : Below(r, P2) \subseteq P1 /\ (r \in P1 \/ Below(r, E) = {}) /\ r # << >>
BestPossible(R, P1, P2, E) == \A d \in Common(P1, P2, E) : ~\E r \in R : r # d /\ IsPrefix(d, r)
=============================================================================
