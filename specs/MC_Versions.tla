---------------------------- MODULE MC_Versions ----------------------------
(* Design check: the order on numerals is the numeric one, and the order on  *)
(* versions is total. One state per triple of versions.                      *)
EXTENDS Versions, Integers
CONSTANTS Nums, MaxLen
VARIABLES u, v, w

RECURSIVE Numeral(_)
Numeral(n) == IF n < 10 THEN <<n>> ELSE Numeral(n \div 10) \o <<n % 10>>
Vs == UNION {[1..k -> {Numeral(n) : n \in Nums}] : k \in 1..MaxLen}

Init == u \in Vs /\ v \in Vs /\ w \in Vs
Next == UNCHANGED <<u, v, w>>
Spec == Init /\ [][Next]_<<u, v, w>>

Numeric == \A a, b \in Nums : NumLess(Numeral(a), Numeral(b)) <=> a < b
Trichotomy == Cardinality({x \in {"lt", "eq", "gt"} :
    \/ x = "lt" /\ VLess(u, v)
    \/ x = "eq" /\ u = v
    \/ x = "gt" /\ VLess(v, u)}) = 1
Transitive == VLess(u, v) /\ VLess(v, w) => VLess(u, w)
TextInjective == (u = v) <=> (Text(u) = Text(v))
=============================================================================
