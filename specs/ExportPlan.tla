----------------------------- MODULE ExportPlan -----------------------------
(* Which patches an export command handles, in which order, and what each    *)
(* one is compared with. Patches are sequences of numbers (<< >> is main);   *)
(* the stored ones and the version directories are sets of patches.          *)
EXTENDS Naturals, Sequences, FiniteSets

RangeOf(s) == {s[i] : i \in 1..Len(s)}

(* numeric order; main is not comparable with others, never mixed here *)
Less(a, b) == IF a = << >> \/ b = << >> THEN FALSE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
AtLeast(a, b) == a = b \/ Less(b, a)

None == <<0, 0>>     \* no previous patch

Greatest(S) == CHOOSE v \in S : \A w \in S : AtLeast(v, w)
Older(S, v) == {w \in S : Less(w, v)}
NextOlder(S, v) == IF Older(S, v) = {} THEN None ELSE Greatest(Older(S, v))

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN << >>
                ELSE LET m == Greatest(S) IN Append(Ascending(S \ {m}), m)

(* -- update of a directory of exports -- *)
Handled(stored, dirs, first) == {v \in stored \cap dirs : AtLeast(v, first)}
UpdatePlan(stored, dirs, first) ==
    LET h == Handled(stored, dirs, first)  s == Ascending(h)
    IN [i \in 1..Len(s) |-> [v |-> s[i], prev |-> NextOlder(h, s[i])]]

(* -- export of one patch -- *)
(* target: [kind |-> "latest" | "version" | "other", v]                      *)
(* previous: [kind |-> "default" | "none" | "version" | "other", v]          *)
TargetOf(stored, target) ==
    IF target.kind = "latest" THEN (IF stored = {} THEN {} ELSE {Greatest(stored)})
    ELSE IF target.kind = "version" /\ target.v \in stored THEN {target.v} ELSE {}
PreviousOf(stored, v, previous) ==
    CASE previous.kind = "none" -> {None}
      [] previous.kind = "version" -> (IF previous.v \in stored THEN {previous.v} ELSE {})
      [] previous.kind = "default" -> {NextOlder(stored, v)} \ {None}
      [] OTHER -> {}

(* possible plans of a command; refusals are empty plans with ok = FALSE *)
Refused == [ok |-> FALSE, plan |-> << >>]
Single(stored, target, previous, links) ==
    {[ok |-> TRUE, plan |-> <<[v |-> v, prev |-> p]>>] :
        <<v, p>> \in {q \in (TargetOf(stored, target) \X UNION {PreviousOf(stored, v, previous) : v \in TargetOf(stored, target)}) :
                        q[2] \in PreviousOf(stored, q[1], previous) /\ ~(links /\ q[2] = None)}}

(* cmd: [patch : target with kind "" if none, previous, first : [kind, v], links] *)
Outcomes(cmd, stored, dirs, outdir) ==
    IF cmd.patch.kind = ""
    THEN IF cmd.previous.kind # "default" \/ cmd.first.kind # "version" \/ ~outdir THEN {Refused}
         ELSE {[ok |-> TRUE, plan |-> UpdatePlan(stored, dirs, cmd.first.v)]}
              \cup (IF dirs \subseteq stored THEN {} ELSE {Refused})     \* unknown directories
    ELSE IF cmd.first.kind # "" THEN {Refused}
         ELSE LET s == Single(stored, cmd.patch, cmd.previous, cmd.links)
              IN IF s = {} THEN {Refused} ELSE s
=============================================================================
