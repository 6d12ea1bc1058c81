----------------------------- MODULE Trace_C22 -----------------------------
(* Export commands run on a storage and a directory. An event gives the      *)
(* stored patches and version directories before the command, the command,   *)
(* its status, and what was exported: in order, each patch with the patches  *)
(* it has been compared with.                                                *)
EXTENDS ExportPlan
VARIABLES c, l, st

(* fetching updates may store one more patch, for commands naming a patch *)
StoredFor(ev) == RangeOf(ev.stored) \cup (IF ev.cmd.patch.kind # "" /\ ev.cmd.first.kind = "" THEN RangeOf(ev.adv) ELSE {})

Observed(ev) == [ok |-> ev.status = "ok", plan |-> ev.done]

TFails(s, ev) ==
    LET outs == Outcomes(ev.cmd, StoredFor(ev), RangeOf(ev.dirs), ev.outdir)
        o == Observed(ev)
    IN IF ~o.ok THEN (IF Refused \in outs THEN {} ELSE {"refused"}) \cup (IF ev.changed THEN {"changed-although-refused"} ELSE {})
       ELSE IF \A x \in outs : ~x.ok THEN {"accepted"}
       ELSE IF o \in outs THEN (IF ev.strange THEN {"other-directories"} ELSE {})
       ELSE IF \E x \in outs : x.ok /\ [i \in 1..Len(x.plan) |-> x.plan[i].v] = [i \in 1..Len(o.plan) |-> o.plan[i].v] THEN {"previous"}
       ELSE IF \E x \in outs : x.ok /\ {x.plan[i].v : i \in 1..Len(x.plan)} = {o.plan[i].v : i \in 1..Len(o.plan)} THEN {"order"}
       ELSE {"patches"}
TInit(case) == "s"
TPost(s, ev) == s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
