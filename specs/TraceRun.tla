------------------------------ MODULE TraceRun ------------------------------
(* Checks recorded cases against a specification given as functions of its  *)
(* state. A case is [cfg |-> ..., ev |-> <<event, ...>>]. The verdict is     *)
(* total: every case is accepted, or rejected at a step with the names of    *)
(* the violated clauses.                                                     *)
(*   InitSt(case)      state before the first event                          *)
(*   Fails(st, ev)     names of the clauses an event violates in a state     *)
(*   Post(st, ev)      state after an event which violates nothing           *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS InitSt(_), Fails(_, _), Post(_, _)

VARIABLES c, l, st

(* Read once: TLC would evaluate the file again at each use otherwise *)
Cases == TLCGet(1)

tvars == <<c, l, st>>

First(n) == IF n <= Len(Cases) THEN InitSt(Cases[n]) ELSE "end"

Init == /\ TLCSet(1, ndJsonDeserialize(IOEnv.VCASES))
        /\ c = 1 /\ l = 1 /\ st = First(1)

Accept == /\ l > Len(Cases[c].ev)
          /\ PrintT("ACCEPT " \o ToString(c))
          /\ c' = c + 1 /\ l' = 1 /\ st' = First(c + 1)

Consume == /\ l <= Len(Cases[c].ev)
           /\ LET f == Fails(st, Cases[c].ev[l])
              IN IF f = {}
                 THEN /\ c' = c /\ l' = l + 1
                      /\ st' = Post(st, Cases[c].ev[l])
                 ELSE /\ PrintT("REJECT " \o ToJson([case |-> c, at |-> l, clauses |-> f]))
                      /\ c' = c + 1 /\ l' = 1 /\ st' = First(c + 1)

Next == c <= Len(Cases) /\ (Accept \/ Consume)

Spec == Init /\ [][Next]_tvars
=============================================================================
