------------------------------ MODULE History ------------------------------
(* Histories of releases and what listing, looking up and updating give.     *)
(* A history H is the sequence, oldest first, of releases; a release maps    *)
(* the names of its elements to their patch version, <<X, Y>> or << >> for   *)
(* "main". Listed elements are [name, rel, v] with rel an index of H.        *)
EXTENDS Naturals, Sequences, FiniteSets

Names == {"client", "game"}

PLess(u, v) == Len(u) = 2 /\ Len(v) = 2 /\ (u[1] < v[1] \/ (u[1] = v[1] /\ u[2] < v[2]))

Entries(H) == UNION {{[name |-> n, rel |-> i, v |-> H[i][n]] : n \in DOMAIN H[i]} : i \in 1..Len(H)}
VersionsOf(H) == {e.v : e \in Entries(H)}

(* versions of an element never decrease: the assumption of the storages     *)
Monotonic(H) == \A a, b \in Entries(H) : a.name = b.name /\ a.rel < b.rel => ~PLess(b.v, a.v)

(* -- listings -- *)
ElementsOK(H, out) ==
    /\ {out[i] : i \in 1..Len(out)} = Entries(H)
    /\ Len(out) = Cardinality(Entries(H))
    /\ \A i, j \in 1..Len(out) : i < j =>
         /\ ~PLess(out[i].v, out[j].v)
         /\ out[i].name = out[j].name => out[i].rel > out[j].rel

Carriers(H, n, v) == {e.rel : e \in {e \in Entries(H) : e.name = n /\ e.v = v}}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
NewestOf(H, n, v) == Max(Carriers(H, n, v))

PatchElems(H, v) == [n \in {n \in Names : Carriers(H, n, v) # {}} |-> NewestOf(H, n, v)]

PatchesOK(H, out) ==
    /\ {out[i].v : i \in 1..Len(out)} = VersionsOf(H)
    /\ \A i, j \in 1..Len(out) : i < j => PLess(out[j].v, out[i].v)
    /\ \A i \in 1..Len(out) : out[i].elems = PatchElems(H, out[i].v)

(* -- lookups: the answer is [kind |-> "none"], [kind |-> "patch", v, elems] *)
(* or [kind |-> "element", name, rel, v]                                     *)
Latest(V) == CHOOSE v \in V : \A w \in V : ~PLess(v, w)
NoAnswer == [kind |-> "none"]
PatchAnswer(H, v) == [kind |-> "patch", v |-> v, elems |-> PatchElems(H, v)]

FindPatch(H, v) == IF v \in VersionsOf(H) THEN PatchAnswer(H, v) ELSE NoAnswer
LatestPatch(H) == IF Entries(H) = {} THEN NoAnswer ELSE PatchAnswer(H, Latest(VersionsOf(H)))
FindElement(H, n, v) == IF Carriers(H, n, v) = {} THEN NoAnswer
                        ELSE [kind |-> "element", name |-> n, rel |-> NewestOf(H, n, v), v |-> v]
LatestElement(H, n) ==
    LET rels == {e.rel : e \in {e \in Entries(H) : e.name = n}}
    IN IF rels = {} THEN NoAnswer ELSE [kind |-> "element", name |-> n, rel |-> Max(rels), v |-> H[Max(rels)][n]]

(* the stored patch a patch is compared with when exported                   *)
Older(H, v) == {w \in VersionsOf(H) : PLess(w, v)}

(* -- component strings -- *)
Digit(ch) == ch \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(t, i) == SubSeq(t, i, i)
StartsWith(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
RECURSIVE NumberAt(_, _)        \* end of the digits starting at i (exclusive)
NumberAt(t, i) == IF i <= Len(t) /\ Digit(Ch(t, i)) THEN NumberAt(t, i + 1) ELSE i
DigitVal(ch) == CASE ch = "0" -> 0 [] ch = "1" -> 1 [] ch = "2" -> 2 [] ch = "3" -> 3 [] ch = "4" -> 4
                  [] ch = "5" -> 5 [] ch = "6" -> 6 [] ch = "7" -> 7 [] ch = "8" -> 8 [] ch = "9" -> 9
RECURSIVE Value(_, _)
Value(t, acc) == IF t = "" THEN acc ELSE Value(SubSeq(t, 2, Len(t)), acc * 10 + DigitVal(Ch(t, 1)))

(* [form |-> "latest" | "version" | "nothing" | "invalid", v]                *)
(* "nothing": numbers which are not a patch version select nothing (they may *)
(* be refused too)                                                           *)
ParseVersion(t) ==
    IF t = "" THEN [form |-> "latest", v |-> << >>]
    ELSE IF t = "main" THEN [form |-> "version", v |-> << >>]
    ELSE IF \E i \in 1..Len(t) : ~Digit(Ch(t, i)) /\ Ch(t, i) # "." THEN [form |-> "invalid", v |-> << >>]
    ELSE LET e1 == NumberAt(t, 1)
             e2 == NumberAt(t, e1 + 1)
             good == /\ e1 > 1 /\ e1 < Len(t) /\ Ch(t, e1) = "." /\ e2 > e1 + 1
                     /\ (e2 > Len(t) \/ (e2 = Len(t) /\ Ch(t, e2) = "."))
         IN IF good THEN [form |-> "version", v |-> <<Value(SubSeq(t, 1, e1 - 1), 0), Value(SubSeq(t, e1 + 1, e2 - 1), 0)>>]
            ELSE IF Digit(Ch(t, 1)) THEN [form |-> "nothing", v |-> << >>]
            ELSE [form |-> "invalid", v |-> << >>]

ParseComponent(t) ==
    IF \E n \in Names \cup {"patch"} : StartsWith(t, n \o "=")
    THEN LET n == CHOOSE n \in Names \cup {"patch"} : StartsWith(t, n \o "=")
             p == ParseVersion(SubSeq(t, Len(n) + 2, Len(t)))
         IN [what |-> n, form |-> p.form, v |-> p.v]
    ELSE [what |-> "none", form |-> "invalid", v |-> << >>]

Answer(H, what, form, v) ==
    CASE form = "nothing" -> NoAnswer
      [] form = "latest" /\ what = "patch"  -> LatestPatch(H)
      [] form = "latest" /\ what # "patch"  -> LatestElement(H, what)
      [] form = "version" /\ what = "patch" -> FindPatch(H, v)
      [] form = "version" /\ what # "patch" -> FindElement(H, what, v)

(* -- updates: pairs of manifests -- *)
NeedsRecord(recorded, pair) == recorded = << >> \/ recorded[Len(recorded)] # pair
AfterUpdate(recorded, pair) == IF NeedsRecord(recorded, pair) THEN Append(recorded, pair) ELSE recorded
=============================================================================
