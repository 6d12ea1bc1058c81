----------------------------- MODULE Trace_C07 -----------------------------
(* Operations stopped at some point and run again. case: goal, the tree an   *)
(* undisturbed run gives from the initial one; free, names which may be      *)
(* replaced by equal ones. Events:                                           *)
(*   stop: kind, before, now (trees), status                                 *)
(*   rerun: status, now                                                      *)
EXTENDS Atomic
VARIABLES c, l, st

Free(s) == {s.free[i] : i \in 1..Len(s.free)}

StopFails(s, ev) ==
    LET bad == {p \in Truncated(ev.before, s.goal, ev.now) : ~(p \in Free(s) /\ At(ev.now, p) = Missing)}
        left == Leftovers(ev.before, s.goal, ev.now) \ Free(s)
    IN (IF \E p \in bad : At(ev.before, p) # At(s.goal, p) THEN {"incomplete"} ELSE {})
       \cup (IF \E p \in bad : At(ev.before, p) = At(s.goal, p) THEN {"damaged"} ELSE {})
       \cup (IF Dangling(ev.before, s.goal, ev.now) # {} THEN {"dangling"} ELSE {})
       \cup (IF ev.kind # "kill" /\ left # {} THEN {"leftover"} ELSE {})
       \cup (IF ev.status = "ok" /\ Unfinished(s.goal, ev.now) # {} THEN {"unreported"} ELSE {})

RerunFails(s, ev) ==
    (IF ev.status = "ok" THEN {} ELSE {"rerun-failed"})
    \cup (IF ev.status = "ok" /\ Unfinished(s.goal, ev.now) # {} THEN {"rerun-differs"} ELSE {})
    \cup (IF DOMAIN ev.now \subseteq DOMAIN s.goal \cup s.extra THEN {} ELSE {"rerun-extra"})

TFails(s, ev) == CASE ev.op = "stop" -> StopFails(s, ev)
                   [] ev.op = "rerun" -> RerunFails(s, ev)
                   [] OTHER -> {"unknown-event"}
TInit(case) == [goal |-> case.goal, free |-> case.free, extra |-> {}]
TPost(s, ev) == IF ev.op = "stop" THEN [s EXCEPT !.extra = DOMAIN ev.now \ DOMAIN s.goal]
                ELSE [s EXCEPT !.extra = {}]
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
