--------------------------- MODULE MC_BundlePool ---------------------------
(* All schedules of a pool of W workers on a work list, with any subset of   *)
(* the requests failing. The pool is checked against the steps BundlePool    *)
(* allows (assertions), and against the property.                            *)
EXTENDS BundlePool, TLC, Json
CONSTANTS N, W, Emit
VARIABLES k, s, queue, busy, bad, order
vars == <<k, s, queue, busy, bad, order>>
B == 1..N
(* k: bundles whose situation (needed, stored, failing) has been decided *)
Init == k = 0 /\ s = CallInit({}, {}) /\ queue = {} /\ busy = {} /\ bad = {} /\ order = << >>
Decide == /\ k < N /\ k' = k + 1
          /\ \E need, stored, fails \in BOOLEAN :
               LET add(S, p) == IF p THEN S \cup {k + 1} ELSE S IN
                 /\ fails => need /\ ~stored
                 /\ s' = CallInit(add(s.need, need), add(s.before, stored))
                 /\ queue' = add(queue, need /\ ~stored)
                 /\ bad' = add(bad, fails)
          /\ UNCHANGED <<busy, order>>
Take == /\ k = N /\ queue # {} /\ Cardinality(busy) < W
        /\ LET b == CHOOSE b \in queue : \A x \in queue : b <= x IN
             /\ Assert(CanStart(s, b), "start") /\ s' = Start(s, b)
             /\ queue' = queue \ {b} /\ busy' = busy \cup {b}
        /\ UNCHANGED <<k, bad, order>>
Answer == \E b \in busy :
        /\ Assert(CanEnd(s, b), "end") /\ s' = End(s, b, b \notin bad)
        /\ busy' = busy \ {b} /\ order' = Append(order, b)
        /\ UNCHANGED <<k, queue, bad>>
Finish == /\ k = N /\ queue = {} /\ busy = {} /\ ~s.done
          /\ Assert(CanReturn(s, bad = {}), "return") /\ s' = Return(s)
          /\ UNCHANGED <<k, queue, busy, bad, order>>
Next == Decide \/ Take \/ Answer \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Requested == s.started \subseteq s.need \ s.before
Complete == s.done => /\ s.started = s.need \ s.before
                      /\ s.stored = s.before \cup (s.need \ bad)
Terminates == <>(s.done)
EmitSchedule == Emit => (s.done /\ order # << >> => PrintT("SCENARIO " \o ToJson([need |-> s.need, before |-> s.before, bad |-> bad, order |-> order])))
=============================================================================
