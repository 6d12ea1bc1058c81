----------------------------- MODULE BundlePool -----------------------------
(* One parallel download of bundles. State of a call:                        *)
(*   need     bundles needed by the element                                  *)
(*   stored   bundles completely stored                                      *)
(*   started, ended, failed   requests made, answered, answered badly        *)
(*   done     the call returned                                              *)
EXTENDS Naturals, FiniteSets, Sequences

CallInit(need, stored) == [need |-> need, stored |-> stored, before |-> stored, started |-> {}, ended |-> {}, failed |-> {}, done |-> FALSE]

CanStart(s, b) == ~s.done /\ b \in s.need /\ b \notin s.before /\ b \notin s.started
Start(s, b) == [s EXCEPT !.started = @ \cup {b}]

CanEnd(s, b) == b \in s.started \ s.ended
End(s, b, ok) == [s EXCEPT !.ended = @ \cup {b}, !.failed = IF ok THEN @ ELSE @ \cup {b}, !.stored = IF ok THEN @ \cup {b} ELSE @]

(* a call may return when all requests are answered; it succeeds when it     *)
(* has everything and reports a failure otherwise                            *)
CanReturn(s, ok) ==
    /\ ~s.done /\ s.started = s.ended
    /\ ok => s.failed = {} /\ s.need \subseteq s.stored
    /\ ~ok => s.failed # {}
Return(s) == [s EXCEPT !.done = TRUE]
=============================================================================
