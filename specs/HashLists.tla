----------------------------- MODULE HashLists -----------------------------
(* Hash lists: files of lines "hash path", their values in memory and their  *)
(* copies on a server. Texts are sequences of code points; a hash is the     *)
(* sequence of its digits (0..15) without leading zeros.                     *)
EXTENDS Naturals, Sequences, FiniteSets

LF == 10  CR == 13  SP == 32  Zero == 48  LowerA == 97  UpperA == 65

RECURSIVE SplitLines(_, _, _)
(* lines of a text; a last line without end of line counts *)
SplitLines(t, i, cur) ==
    IF i > Len(t) THEN (IF cur = << >> THEN << >> ELSE <<cur>>)
    ELSE IF t[i] = LF THEN <<cur>> \o SplitLines(t, i + 1, << >>)
    ELSE IF t[i] = CR /\ i < Len(t) /\ t[i + 1] = LF THEN <<cur>> \o SplitLines(t, i + 2, << >>)
    ELSE SplitLines(t, i + 1, Append(cur, t[i]))
Lines(t) == SplitLines(t, 1, << >>)

IsDigit(x) == x \in (Zero..(Zero + 9)) \cup (LowerA..(LowerA + 5)) \cup (UpperA..(UpperA + 5))
Digit(x) == IF x < UpperA THEN x - Zero ELSE IF x < LowerA THEN x - UpperA + 10 ELSE x - LowerA + 10
Char(d) == IF d < 10 THEN Zero + d ELSE LowerA + d - 10

RECURSIVE Strip(_)
Strip(h) == IF h # << >> /\ Head(h) = 0 THEN Strip(Tail(h)) ELSE h
Space(line) == CHOOSE i \in 1..Len(line) : line[i] = SP /\ \A j \in 1..(i - 1) : line[j] # SP
GoodLine(line) == /\ \E i \in 2..Len(line) : line[i] = SP
                  /\ \A j \in 1..(Space(line) - 1) : IsDigit(line[j])
HashOf(line) == Strip([j \in 1..(Space(line) - 1) |-> Digit(line[j])])
PathOf(line) == SubSeq(line, Space(line) + 1, Len(line))

GoodText(t) == LET ls == Lines(t) IN \A i \in 1..Len(ls) : GoodLine(ls[i])
(* the last line of a hash counts *)
MapOf(t) == LET ls == Lines(t)
            IN {[h |-> HashOf(ls[i]), p |-> PathOf(ls[i])] : i \in {k \in 1..Len(ls) : \A j \in (k + 1)..Len(ls) : HashOf(ls[j]) # HashOf(ls[k])}}

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(<<Zero>> \o s, n)
LineOf(e, size) == Pad([j \in 1..Len(e.h) |-> Char(e.h[j])], IF size = 0 THEN 1 ELSE size) \o <<SP>> \o e.p

RECURSIVE LexLeq(_, _)
LexLeq(a, b) == IF a = << >> THEN TRUE ELSE IF b = << >> THEN FALSE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLeq(Tail(a), Tail(b))

(* a text a mapping may be saved as: each line once, in the order of paths *)
SavedAs(map, size, t) ==
    LET ls == Lines(t)
    IN /\ t # << >> => t[Len(t)] = LF
       /\ Len(ls) = Cardinality(map)
       /\ {ls[i] : i \in 1..Len(ls)} = {LineOf(e, size) : e \in map}
       /\ \A i \in 1..(Len(ls) - 1) : LexLeq(PathOf(ls[i]), PathOf(ls[i + 1]))

SetHash(map, h, p) == {e \in map : e.h # h} \cup {[h |-> h, p |-> p]}
DelHash(map, h) == {e \in map : e.h # h}

(* a list is fetched when there is none, or when the server's copy is newer *)
MustFetch(there, mtime, smtime) == ~there \/ smtime > mtime
=============================================================================
