----------------------------- MODULE MC_Atomic -----------------------------
(* Download and extraction of files to a storage where the presence of a     *)
(* name (with the right size, for extracted files) is taken as a proof that  *)
(* it is complete. Contents are sequences of blocks. The operation fails, or *)
(* is killed, at any step, and is run again.                                 *)
EXTENDS Atomic, Json
CONSTANTS Bundles, Files, Blocks, Links, InPlace, MaxFaults, Emit
VARIABLES disk, before, pc, todo, cur, faults, done, log
vars == <<disk, before, pc, todo, cur, faults, done, log>>

(* bundle b has Blocks blocks, file f is made of one block of each bundle *)
B(b) == <<"b", b>>
F(f) == <<"f", f>>
L(f) == <<"l", f>>
T(x) == <<"t", x>>
BundleData(b) == [i \in 1..Blocks |-> <<b, i>>]
FileData(f) == [i \in 1..Cardinality(Bundles) |-> <<i, ((f + i) % Blocks) + 1>>]
FileT(f) == IF Links THEN F(f) ELSE L(f)
Full(x) == IF x[1] = "b" THEN BundleData(x[2]) ELSE FileData(x[2])
Wrong == <<"wrong">>

There(x) == x \in DOMAIN disk
Without(d, S) == [x \in DOMAIN d \ S |-> d[x]]
Read(d, x) == IF x[1] = "l" /\ Links THEN (IF F(x[2]) \in DOMAIN d THEN d[F(x[2])] ELSE <<"dangling">>) ELSE d[x]
IsWhole(d, f) == L(f) \in DOMAIN d /\ Len(Read(d, L(f))) = Len(FileData(f)) /\ Read(d, L(f)) # <<"dangling">>

Goal == [x \in {B(b) : b \in Bundles} \cup {FileT(f) : f \in Files} \cup {L(f) : f \in Files} |->
            IF x[1] = "l" /\ Links THEN <<"->", x[2]>> ELSE Full(x)]

Init == /\ \E S \in SUBSET ({B(b) : b \in Bundles} \cup {FileT(f) : f \in Files}), W \in SUBSET Files :
             /\ disk = [x \in S \cup (IF Links THEN {L(f) : f \in {f \in Files : F(f) \in S}} ELSE {}) |->
                          IF x[1] = "l" /\ Links THEN <<"->", x[2]>>
                          ELSE IF x[1] = "b" THEN Full(x) ELSE IF x[2] \in W THEN Wrong ELSE Full(x)]
             /\ \A f \in W : FileT(f) \in S
        /\ before = disk /\ pc = "idle" /\ todo = << >> /\ cur = << >> /\ faults = 0 /\ done = FALSE /\ log = << >>

SeqOf(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i < j => s[i] # s[j]
Start == /\ pc = "idle" /\ ~done
         /\ todo' = SeqOf({B(b) : b \in {b \in Bundles : ~There(B(b))}}) \o SeqOf({L(f) : f \in {f \in Files : ~IsWhole(disk, f)}})
         /\ pc' = "next" /\ before' = disk /\ UNCHANGED <<disk, cur, faults, done, log>>

Step(p, d, c) == /\ pc' = p /\ disk' = d /\ cur' = c /\ UNCHANGED <<before, faults, done, log>>
NextTarget ==
    /\ pc = "next"
    /\ IF todo = << >>
       THEN /\ pc' = "idle" /\ done' = TRUE /\ UNCHANGED <<disk, before, todo, cur, faults, log>>
       ELSE LET x == Head(todo)
                y == IF x[1] = "l" THEN FileT(x[2]) ELSE x
                ready == x[1] = "l" /\ y \in DOMAIN disk /\ Len(disk[y]) = Len(Full(y))
            IN /\ todo' = Tail(todo)
               /\ IF ready THEN Step(IF Links THEN "unlink" ELSE "next", disk, y)
                  ELSE IF x[1] = "l" /\ (\E b \in Bundles : ~There(B(b))) THEN FALSE
                  ELSE Step("open", disk, y)
Out(x) == IF InPlace THEN x ELSE T(x)
Open == /\ pc = "open" /\ Step("write", (Out(cur) :> << >>) @@ disk, cur) /\ UNCHANGED todo
Write == /\ pc = "write" /\ UNCHANGED todo
         /\ LET n == Len(disk[Out(cur)]) IN
            IF n < Len(Full(cur))
            THEN Step("write", [disk EXCEPT ![Out(cur)] = Append(@, Full(cur)[n + 1])], cur)
            ELSE Step("rename", disk, cur)
Rename == /\ pc = "rename" /\ UNCHANGED todo
          /\ Step(IF cur[1] = "f" THEN "unlink" ELSE "next",
                  IF InPlace THEN disk ELSE (cur :> disk[T(cur)]) @@ Without(disk, {T(cur), cur}), cur)
Unlink == /\ pc = "unlink" /\ Step("link", Without(disk, {L(cur[2])}), cur) /\ UNCHANGED todo
Link == /\ pc = "link" /\ Step("next", (L(cur[2]) :> <<"->", cur[2]>>) @@ disk, cur) /\ UNCHANGED todo

(* Failures clean up, kills do not *)
Fail == /\ pc \notin {"idle"} /\ faults < MaxFaults
        /\ disk' = IF pc \in {"write", "rename", "open"} THEN Without(disk, {cur, T(cur)}) ELSE disk
        /\ faults' = faults + 1 /\ pc' = "idle" /\ todo' = << >> /\ cur' = << >> /\ log' = Append(log, <<"fail", pc>>)
        /\ UNCHANGED <<before, done>>
Kill == /\ pc # "idle" /\ faults < MaxFaults
        /\ faults' = faults + 1 /\ pc' = "idle" /\ todo' = << >> /\ cur' = << >> /\ log' = Append(log, <<"kill", pc>>)
        /\ UNCHANGED <<disk, before, done>>
Next == Start \/ NextTarget \/ Open \/ Write \/ Rename \/ Unlink \/ Link \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars /\ WF_vars(Start \/ NextTarget \/ Open \/ Write \/ Rename \/ Unlink \/ Link)

(* A tree as in Atomic *)
Finals(d) == {x \in DOMAIN d : x[1] # "t"}
Tree(d) == [x \in Finals(d) |-> IF x[1] = "l" /\ Links THEN [link |-> "->", c |-> IF F(x[2]) \in DOMAIN d THEN ToString(d[F(x[2])]) ELSE "dangling"]
                                ELSE [link |-> "", c |-> ToString(d[x])]]
NoTruncated == pc = "idle" => Truncated(Tree(before), Tree(Goal), Tree(disk)) = {}
NeverTruncated == Truncated(Tree(before), Tree(Goal), Tree(disk)) = {}
NoDangling == Dangling(Tree(before), Tree(Goal), Tree(disk)) = {}
RerunGives == done => Unfinished(Tree(Goal), Tree(disk)) = {}
CleanFailures == (pc = "idle" /\ \A i \in 1..Len(log) : log[i][1] = "fail") => Leftovers(Tree(before), Tree(Goal), [x \in DOMAIN disk |-> Missing]) = {}
Completes == <>done
EmitFaults == Emit => (done /\ log # << >> => PrintT("SCENARIO " \o ToJson([init |-> DOMAIN before, log |-> log])))
=============================================================================
