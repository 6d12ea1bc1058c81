----------------------------- MODULE MC_History -----------------------------
(* The listing algorithm (merge of the per-element listings, then grouping   *)
(* of consecutive equal versions) against the declarative History, for all   *)
(* histories of up to N releases and M versions.                             *)
EXTENDS History, TLC, Json
CONSTANTS N, M, Emit
VARIABLES H, ready, pos, out
vars == <<H, ready, pos, out>>
Vers == {<<1, k>> : k \in 1..M}
(* releases: any subset of the elements, with a version for each             *)
Releases == UNION {[S -> Vers] : S \in SUBSET Names}
Top(n) == LET vs == {e.v : e \in {e \in Entries(H) : e.name = n}} IN IF vs = {} THEN <<1, 1>> ELSE Latest(vs)

Init == H = << >> /\ ready = FALSE /\ pos = [n \in Names |-> 0] /\ out = << >>
Record == /\ ~ready /\ Len(H) < N
          /\ \E r \in Releases : (\A n \in DOMAIN r : ~PLess(r[n], Top(n))) /\ H' = Append(H, r)
          /\ UNCHANGED <<ready, pos, out>>
(* position of the next release of each element, from the newest            *)
RECURSIVE Seek(_, _)
Seek(n, i) == IF i = 0 THEN 0 ELSE IF n \in DOMAIN H[i] THEN i ELSE Seek(n, i - 1)
Start == ~ready /\ ready' = TRUE /\ pos' = [n \in Names |-> Seek(n, Len(H))] /\ UNCHANGED <<H, out>>
Yield == /\ ready
         /\ \E n \in Names :
              /\ pos[n] > 0
              /\ \A m \in Names : pos[m] > 0 => ~PLess(H[pos[n]][n], H[pos[m]][m])
              /\ out' = Append(out, [name |-> n, rel |-> pos[n], v |-> H[pos[n]][n]])
              /\ pos' = [pos EXCEPT ![n] = Seek(n, pos[n] - 1)]
         /\ UNCHANGED <<H, ready>>
Next == Record \/ Start \/ Yield
Done == ready /\ \A n \in Names : pos[n] = 0

(* grouping of consecutive versions, keeping the first of each name          *)
RECURSIVE Group(_)
Group(s) ==
    IF s = << >> THEN << >>
    ELSE LET k == Max({j \in 1..Len(s) : \A i \in 1..j : s[i].v = s[1].v})
             first(n) == CHOOSE i \in 1..k : s[i].name = n /\ \A j \in 1..(i-1) : s[j].name # n
             ns == {s[i].name : i \in 1..k}
         IN <<[v |-> s[1].v, elems |-> [n \in ns |-> s[first(n)].rel]]>> \o Group(SubSeq(s, k + 1, Len(s)))

MonotonicInv == Monotonic(H)
ListingInv == Done => ElementsOK(H, out)
PatchesInv == Done => PatchesOK(H, Group(out))
(* lookups walk the listings                                                 *)
FirstPatch == Group(out)
LookupInv == Done =>
    /\ LatestPatch(H) = (IF out = << >> THEN NoAnswer ELSE [kind |-> "patch", v |-> FirstPatch[1].v, elems |-> FirstPatch[1].elems])
    /\ \A n \in Names : LET is == {i \in 1..Len(out) : out[i].name = n} IN
         LatestElement(H, n) = (IF is = {} THEN NoAnswer ELSE
              LET i == CHOOSE i \in is : \A j \in is : i <= j IN [kind |-> "element", name |-> n, rel |-> out[i].rel, v |-> out[i].v])
EmitHistory == (Emit /\ ready /\ out = << >>) => PrintT("SCENARIO " \o ToJson([h |-> H]))
=============================================================================
