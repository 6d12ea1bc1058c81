----------------------------- MODULE Trace_C04 -----------------------------
(* Update checks. State: recorded releases <<id, client, game>> by patchline *)
(* in the order they have been recorded (ids are directory names).           *)
EXTENDS History
VARIABLES c, l, st

Pair(r) == <<r[2], r[3]>>
Pairs(rs) == [i \in 1..Len(rs) |-> Pair(rs[i])]
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* before is kept, and followed by the new ones *)
Extends(rs, rs2) == Len(rs2) >= Len(rs) /\ SubSeq(rs2, 1, Len(rs)) = rs

UpdateFails(s, ev) ==
    LET old == s.rels[ev.line]  new == ev.rels[ev.line]
        want == IF ev.adv = << >> THEN Pairs(old) ELSE AfterUpdate(Pairs(old), ev.adv)
    IN (IF Extends(old, new) THEN {} ELSE {"modified"})
       \cup (IF \A x \in DOMAIN s.rels : x # ev.line => ev.rels[x] = s.rels[x] THEN {} ELSE {"other-patchline"})
       \cup (IF ev.incomplete = << >> THEN {} ELSE {"incomplete"})
       \cup (IF ev.fault = "none" /\ ev.adv # << >>
             THEN (IF ev.status = "ok" THEN {} ELSE {"failed"}) \cup (IF Pairs(new) = want THEN {} ELSE {"recorded"})
             ELSE IF Pairs(new) \in {Pairs(old), want} THEN {} ELSE {"recorded-on-failure"})
       \cup (IF ev.listing = Reverse([i \in 1..Len(new) |-> new[i][1]]) THEN {} ELSE {"listing-order"})

TFails(s, ev) == IF ev.op = "update" THEN UpdateFails(s, ev) ELSE {"unknown-event"}
TInit(case) == [rels |-> case.rels]
TPost(s, ev) == [rels |-> ev.rels]

INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
