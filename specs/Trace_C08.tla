----------------------------- MODULE Trace_C08 -----------------------------
EXTENDS BundlePool
VARIABLES c, l, st
RangeOf(q) == {q[i] : i \in 1..Len(q)}

TFails(s, ev) ==
    CASE ev.op = "call" -> IF ~s.done THEN {"harness"} ELSE {}
      [] ev.op = "start" ->
           IF CanStart(s, ev.b) THEN {}
           ELSE {x \in {"requested-twice", "requested-stored", "requested-unneeded", "requested-after-return"} :
                   \/ x = "requested-twice" /\ ev.b \in s.started
                   \/ x = "requested-stored" /\ ev.b \in s.before
                   \/ x = "requested-unneeded" /\ ev.b \notin s.need
                   \/ x = "requested-after-return" /\ s.done}
      [] ev.op = "end" -> IF CanEnd(s, ev.b) THEN {} ELSE {"answered-after-return"}
      [] ev.op = "return" ->
           {x \in {"returned-early", "wrong-status", "not-stored", "failed-stored", "odd-files"} :
              \/ x = "returned-early" /\ s.started /= s.ended
              \/ x = "wrong-status" /\ s.started = s.ended /\ ~CanReturn(s, ev.status = "ok")
              \/ x = "not-stored" /\ ~(s.stored \subseteq RangeOf(ev.bundles))
              \/ x = "failed-stored" /\ ~(RangeOf(ev.bundles) \subseteq s.stored)
              \/ x = "odd-files" /\ ev.odd /= << >>}
      [] OTHER -> {"unknown-event"}

TInit(case) == [CallInit({}, RangeOf(case.stored)) EXCEPT !.done = TRUE]
TPost(s, ev) ==
    CASE ev.op = "call" -> CallInit(RangeOf(ev.need), s.stored)
      [] ev.op = "start" -> Start(s, ev.b)
      [] ev.op = "end" -> End(s, ev.b, ev.ok)
      [] ev.op = "return" -> Return(s)

INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
