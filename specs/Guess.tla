------------------------------- MODULE Guess -------------------------------
(* Hash guessing: known paths by hash, hashes whose path is unknown, and     *)
(* candidates [h, p] tried one after the other.                              *)
EXTENDS Naturals, Sequences, FiniteSets

KnownHashes(known) == {e.h : e \in known}
Entry(h, p) == [h |-> h, p |-> p]
Started(known, hashes) == [known |-> known, unknown |-> hashes \ KnownHashes(known)]

Try(g, e) == IF e.h \in g.unknown THEN [known |-> g.known \cup {e}, unknown |-> g.unknown \ {e.h}] ELSE g
RECURSIVE TryAll(_, _)
TryAll(g, cands) == IF cands = << >> THEN g ELSE TryAll(Try(g, Head(cands)), Tail(cands))
(* a path is known if its hash is, whichever path is recorded for it *)
IsKnown(g, e) == e.h \in g.unknown \cup KnownHashes(g.known)

(* one path by hash *)
Functional(known) == \A a, b \in known : a.h = b.h => a = b
Valid(g) == Functional(g.known) /\ g.unknown \cap KnownHashes(g.known) = {}

(* archives guessed from: [ext, hashes] *)
HashesOf(kind, archives) == UNION {{archives[i].hashes[j] : j \in 1..Len(archives[i].hashes)} : i \in {k \in 1..Len(archives) : archives[k].kind = kind}}
=============================================================================
