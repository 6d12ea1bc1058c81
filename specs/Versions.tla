------------------------------ MODULE Versions ------------------------------
(* Version values and their order. A numeral is a sequence of digits without *)
(* leading zeros (so that any magnitude is covered), a version is a          *)
(* non-empty sequence of numerals, or "main" written << >>.                  *)
EXTENDS Naturals, Sequences, FiniteSets

NumLess(a, b) ==
    \/ Len(a) < Len(b)
    \/ /\ Len(a) = Len(b)
       /\ \E k \in 1..Len(a) : a[k] < b[k] /\ \A j \in 1..(k-1) : a[j] = b[j]

VLess(u, v) ==
    \/ \E k \in 1..Len(u) :
         /\ k <= Len(v)
         /\ NumLess(u[k], v[k])
         /\ \A j \in 1..(k-1) : u[j] = v[j]
    \/ Len(u) < Len(v) /\ \A j \in 1..Len(u) : u[j] = v[j]

Digits == <<"1", "2", "3", "4", "5", "6", "7", "8", "9">>
DigitText(d) == IF d = 0 THEN "0" ELSE Digits[d]

RECURSIVE NumText(_)
NumText(n) == IF n = << >> THEN "" ELSE DigitText(Head(n)) \o NumText(Tail(n))

RECURSIVE Text(_)
Text(v) == IF Len(v) = 1 THEN NumText(v[1])
           ELSE NumText(v[1]) \o "." \o Text(Tail(v))

Min(a, b) == IF a < b THEN a ELSE b

(* The value a class keeps from the numbers it is built from *)
Stored(cls, v) == IF cls = "patch" THEN SubSeq(v, 1, Min(2, Len(v))) ELSE v

(* Classes accept a number of components *)
Acceptable(cls, v) ==
    CASE cls = "patch" -> Len(v) >= 2
      [] cls = "rads"  -> Len(v) = 4
      [] OTHER         -> Len(v) >= 1

VText(v) == IF v = << >> THEN "main" ELSE Text(v)

(* Sorted lists: entries are [name |-> number, v |-> version] *)
NewestFirst(a, b) == a.name < b.name \/ (a.name = b.name /\ VLess(b.v, a.v))

IsSorted(items, LessThan(_, _)) ==
    \A i, j \in 1..Len(items) : i < j => ~LessThan(items[j], items[i])

Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameItems(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
=============================================================================
