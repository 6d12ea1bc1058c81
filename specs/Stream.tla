------------------------------- MODULE Stream -------------------------------
(* Extraction of file ranges from a package read as a stream of blocks.      *)
(* A range is [off, size]; the package has Total bytes; ranges are disjoint. *)
EXTENDS Integers, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}
Last(r) == r.off + r.size

(* the files a stream holding the first `n` bytes allows to extract, in      *)
(* offset order: all those before the first which is not there               *)
Reachable(ranges, n) == {r \in ranges : \A q \in ranges : (q.off < r.off \/ (q.off = r.off /\ q.size <= r.size)) => Last(q) <= n}

(* what extracting gives: the files written, and whether it succeeds         *)
Outcome(ranges, n) == [files |-> Reachable(ranges, n), ok |-> Reachable(ranges, n) = ranges]
=============================================================================
