----------------------------- MODULE MC_Reduce -----------------------------
(* The recursive reduction of the trees, against its guarantees, for all     *)
(* lists over the paths U.                                                   *)
EXTENDS Reduce, TLC, Json
CONSTANTS Size, Emit
VARIABLES place, k
vars == <<place, k>>
Paths == << <<"a", "x">>, <<"a", "b", "x">>, <<"c">>, <<"a", "b", "y">>, <<"d", "x">>, <<"d", "e", "f">> >>
U == SubSeq(Paths, 1, Size)
(* where each path is: in none, P2, P1 and P2, E, E and P2                   *)
Init == place = << >> /\ k = 0
Next == k < Size /\ k' = k + 1 /\ \E x \in {"none", "2", "12", "E", "E2"} : place' = Append(place, x)
P1 == {U[i] : i \in {i \in 1..Size : place[i] = "12"}}
P2 == {U[i] : i \in {i \in 1..Size : place[i] \in {"2", "12", "E2"}}}
E == {U[i] : i \in {i \in 1..Size : place[i] \in {"E", "E2"}}}
Done == k = Size

Heads(P) == {p[1] : p \in P}
Sub(P, n) == {Tail(p) : p \in {p \in P : p[1] = n}}
IsLeaf(P) == P = {<< >>}
RECURSIVE Walk(_, _, _, _, _)
Walk(parts, t1, t2, ex, hasEx) ==
    IF IsLeaf(t1) \/ (t1 = t2 /\ ~hasEx) THEN {parts}
    ELSE UNION {Walk(Append(parts, n), Sub(t1, n), Sub(t2, n), Sub(ex, n), Sub(ex, n) \notin {{}, {<< >>}}) : n \in Heads(t1)}
Code == Walk(<< >>, P1, P2, E, TRUE)
Same == Done => Code = Reduced(P1, P2, E)
Guarantees == Done => /\ Covers(Reduced(P1, P2, E), P1)
                      /\ NothingElse(Reduced(P1, P2, E), P1, P2, E)
                      /\ BestPossible(Reduced(P1, P2, E), P1, P2, E)
Unique == (Done /\ Size <= 4) =>
    \A R \in SUBSET (P1 \cup Dirs(P1)) : (Covers(R, P1) /\ NothingElse(R, P1, P2, E) /\ BestPossible(R, P1, P2, E)) => R = Reduced(P1, P2, E)
EmitCase == (Emit /\ Done) => PrintT("SCENARIO " \o ToJson([place |-> place]))
=============================================================================
