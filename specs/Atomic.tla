------------------------------- MODULE Atomic -------------------------------
(* Files left by an operation which may be stopped anywhere.                 *)
(* A tree maps final names to contents; "" is written for a missing file. A  *)
(* symbolic link has the content "target|content read through it", with the  *)
(* content "dangling" when there is nothing to read.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

At(tree, p) == IF p \in DOMAIN tree THEN tree[p] ELSE [link |-> "", c |-> ""]
Missing == [link |-> "", c |-> ""]

(* What a name may be after an operation which had to turn `before` into     *)
(* `goal` has been stopped: nothing of it, or all of it. A name which is not *)
(* replaced stays.                                                           *)
AllowedAt(before, goal, now) ==
    \/ now = goal
    \/ before # goal /\ \/ now = before
                        \/ now = Missing
                        (* the file a link leads to may be missing *)
                        \/ now.link # "" /\ now.c = "dangling" /\ now.link \in {before.link, goal.link}

(* Stopped operations; `kill`: there was no way to clean, temporary files    *)
(* may remain                                                                *)
Names(a, b) == DOMAIN a \cup DOMAIN b
Truncated(before, goal, now) == {p \in Names(before, goal) : ~AllowedAt(At(before, p), At(goal, p), At(now, p))}
Leftovers(before, goal, now) == DOMAIN now \ Names(before, goal)

(* A link which has been made leads to a complete file *)
Dangling(before, goal, now) ==
    {p \in DOMAIN now : now[p].link # "" /\ now[p].c = "dangling" /\ At(before, p).link # now[p].link}

(* After the operation has been run again *)
Unfinished(goal, now) == {p \in DOMAIN goal : At(now, p) # goal[p]}
=============================================================================
