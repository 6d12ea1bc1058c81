----------------------------- MODULE Trace_C20 -----------------------------
EXTENDS Reduce
VARIABLES c, l, st
TFails(s, ev) ==
    IF ev.op # "reduce" THEN {"unknown-event"}
    ELSE IF ev.status # "ok" THEN {"failed"}
    ELSE LET R == RangeOf(ev.out) P1 == RangeOf(ev.p1) P2 == RangeOf(ev.p2) E == RangeOf(ev.ex) IN
         {x \in {"covers", "too-much", "not-maximal", "twice"} :
            \/ x = "covers" /\ (~Covers(R, P1) \/ \E r \in R : Below(r, P1) = {})
            \/ x = "too-much" /\ ~NothingElse(R, P1, P2, E)
            \/ x = "not-maximal" /\ ~BestPossible(R, P1, P2, E)
            \/ x = "twice" /\ Len(ev.out) # Cardinality(R)}
TInit(case) == "none"
TPost(s, ev) == s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
