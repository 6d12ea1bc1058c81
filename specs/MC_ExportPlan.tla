--------------------------- MODULE MC_ExportPlan ---------------------------
(* Histories: patches get stored, directories made and removed, commands run.*)
(* The commands are performed step by step as an operator would: an update   *)
(* walks the stored patches from the latest, the export of one patch looks   *)
(* for it then for the next one in the listing.                              *)
EXTENDS ExportPlan, TLC, Json
CONSTANTS MaxOps, MaxMinor, Emit
VARIABLES stored, dirs, exported, cmd, walk, acc, ops
vars == <<stored, dirs, exported, cmd, walk, acc, ops>>

Vs == {<<8, n>> : n \in 1..MaxMinor}
Idle == [on |-> FALSE, multi |-> FALSE, first |-> None, target |-> None]
Init == stored = {} /\ dirs = {} /\ exported = << >> /\ cmd = Idle /\ walk = {} /\ acc = << >> /\ ops = << >>

Can == ~cmd.on /\ Len(ops) < MaxOps
Log(o) == ops' = Append(ops, o)
Store == /\ Can /\ \E v \in Vs : (\A w \in stored : Less(w, v)) /\ stored' = stored \cup {v} /\ Log([o |-> "store", v |-> v])
         /\ UNCHANGED <<dirs, exported, cmd, walk, acc>>
MkDir == /\ Can /\ \E v \in Vs \ dirs : dirs' = dirs \cup {v} /\ Log([o |-> "mkdir", v |-> v])
         /\ UNCHANGED <<stored, exported, cmd, walk, acc>>
RmDir == /\ Can /\ \E v \in dirs : dirs' = dirs \ {v} /\ Log([o |-> "rmdir", v |-> v])
         /\ UNCHANGED <<stored, exported, cmd, walk, acc>>
Update == /\ Can /\ dirs \subseteq stored
          /\ \E f \in Vs : cmd' = [on |-> TRUE, multi |-> TRUE, first |-> f, target |-> None] /\ Log([o |-> "update", v |-> f])
          /\ walk' = stored /\ acc' = << >> /\ UNCHANGED <<stored, dirs, exported>>
One == /\ Can /\ \E v \in stored : cmd' = [on |-> TRUE, multi |-> FALSE, first |-> None, target |-> v] /\ Log([o |-> "one", v |-> v])
       /\ walk' = stored /\ acc' = << >> /\ UNCHANGED <<stored, dirs, exported>>
(* the listing goes from the latest to the oldest *)
Walk == /\ cmd.on /\ walk # {}
        /\ LET v == Greatest(walk) IN
             IF cmd.multi
             THEN IF Less(v, cmd.first) THEN walk' = {} /\ acc' = acc
                  ELSE walk' = walk \ {v} /\ acc' = IF v \in dirs THEN <<[v |-> v, prev |-> None]>> \o [i \in 1..Len(acc) |-> IF i = 1 THEN [acc[1] EXCEPT !.prev = v] ELSE acc[i]] ELSE acc
             ELSE IF Less(cmd.target, v) THEN walk' = walk \ {v} /\ acc' = acc
                  ELSE IF v = cmd.target THEN walk' = walk \ {v} /\ acc' = <<[v |-> v, prev |-> None]>>
                  ELSE walk' = {} /\ acc' = <<[acc[1] EXCEPT !.prev = v]>>
        /\ UNCHANGED <<stored, dirs, exported, cmd, ops>>
Done == /\ cmd.on /\ walk = {}
        /\ exported' = acc /\ dirs' = dirs \cup {acc[i].v : i \in 1..Len(acc)}
        /\ cmd' = Idle /\ acc' = << >> /\ UNCHANGED <<stored, walk, ops>>
Next == Store \/ MkDir \/ RmDir \/ Update \/ One \/ Walk \/ Done
Spec == Init /\ [][Next]_vars

(* the walk finds what the plan says, for each command *)
PlanFound == (cmd.on /\ walk = {}) =>
    IF cmd.multi THEN acc = UpdatePlan(stored, dirs, cmd.first)
    ELSE acc = <<[v |-> cmd.target, prev |-> NextOlder(stored, cmd.target)]>>
(* consequences of plans *)
OldestFirst == (cmd.on /\ cmd.multi /\ walk = {}) =>
    /\ \A i, j \in 1..Len(acc) : i < j => Less(acc[i].v, acc[j].v)
    /\ \A i \in 1..Len(acc) : acc[i].v \in stored \cap dirs /\ acc[i].prev = (IF i = 1 THEN None ELSE acc[i - 1].v)
UpdateMakesNoDirectory == [][(cmd.on /\ ~cmd'.on /\ cmd.multi) => dirs' = dirs]_vars
StoredKept == [][stored \subseteq stored']_vars
View == <<stored, dirs, exported, cmd, walk, acc, Len(ops)>>
EmitOps == (Emit /\ Len(ops) = MaxOps /\ ~cmd.on) => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
