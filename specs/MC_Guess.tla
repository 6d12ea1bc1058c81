------------------------------ MODULE MC_Guess ------------------------------
(* Guessers of both kinds, started from archives over a saved list, used,    *)
(* saved or dropped. Paths are numbers; path p hashes to Hash(p), several    *)
(* paths may share a hash.                                                   *)
EXTENDS Guess, TLC, Json
CONSTANTS NPaths, NHashes, MaxOps, Emit
VARIABLES file, memory, g, tried, ops
vars == <<file, memory, g, tried, ops>>

Paths == 1..NPaths
Hash(p) == ((p - 1) % NHashes) + 1
Off == [on |-> FALSE, known |-> {}, unknown |-> {}]
On(x) == [on |-> TRUE, known |-> x.known, unknown |-> x.unknown]
(* entries of lists may be wrong: the path of another hash *)
Files == {f \in SUBSET {Entry(h, p) : h \in {1, 2}, p \in {1, 2}} : Functional(f)}

Init == /\ file \in Files /\ memory = [on |-> FALSE, list |-> {}] /\ g = Off /\ tried = {} /\ ops = << >>
Log(o) == Len(ops) < MaxOps /\ ops' = Append(ops, o)
List == IF memory.on THEN memory.list ELSE file
Start == /\ \E hs \in SUBSET (1..NHashes) :
              /\ Log([o |-> "start", hs |-> hs, ps |-> << >>])
              /\ g' = On(Started(List, hs))
         /\ memory' = [on |-> TRUE, list |-> List] /\ tried' = {} /\ UNCHANGED file
Check == /\ g.on /\ \E p, q \in Paths :
              /\ Log([o |-> "try", hs |-> {}, ps |-> <<p, q>>])
              /\ g' = On(TryAll([known |-> g.known, unknown |-> g.unknown], <<Entry(Hash(p), p), Entry(Hash(q), q)>>))
              /\ tried' = tried \cup {p, q}
         /\ memory' = [memory EXCEPT !.list = g'.known] /\ UNCHANGED file
Save == /\ g.on /\ Log([o |-> "save", hs |-> {}, ps |-> << >>]) /\ file' = g.known /\ UNCHANGED <<memory, g, tried>>
Restart == /\ Log([o |-> "restart", hs |-> {}, ps |-> << >>]) /\ memory' = [on |-> FALSE, list |-> {}] /\ g' = Off /\ tried' = {} /\ UNCHANGED file
Next == Start \/ Check \/ Save \/ Restart
Spec == Init /\ [][Next]_vars

Consistent == g.on => Valid(g)
OnlyTried == [][\A e \in g'.known \ g.known : ops'[Len(ops')].o = "try" => (e.h = Hash(e.p) /\ e.p \in tried' /\ e.h \in g.unknown)]_vars
NothingLost == [][(g.on /\ g'.on) => (g.known \subseteq g'.known)]_vars
UnknownOnlyBecomeKnown == [][(g.on /\ g'.on /\ ops'[Len(ops')].o = "try") => (g.unknown \ g'.unknown = {e.h : e \in g'.known \ g.known} /\ g'.unknown \subseteq g.unknown)]_vars
TriedAreKnown == g.on => \A p \in tried : Hash(p) \notin g.unknown
FileGrows == [][file \subseteq file']_vars
View == <<file, memory, g, tried, Len(ops)>>
EmitOps == (Emit /\ Len(ops) = MaxOps) => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
