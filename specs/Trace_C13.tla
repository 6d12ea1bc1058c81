----------------------------- MODULE Trace_C13 -----------------------------
(* Decoding archives. case: header (bytes), blobs, toc, hasToc               *)
EXTENDS Wad, TLC
VARIABLES c, l, st

SameEntry(a, e) == /\ a.h = e.h /\ a.size = e.size /\ a.type = e.type /\ a.nsub = e.nsub /\ a.sum = e.sum /\ a.csize = e.csize
WellFormed(s) == IsWad(s) /\ Complete(s)

DecodeFails(s, ev) ==
    IF ~WellFormed(ev.header) THEN (IF ev.status = "ok" THEN {"not-rejected"} ELSE {})
    ELSE IF ev.status # "ok" THEN {"failed"}
    ELSE LET es == Entries(ev.header) IN
         IF Len(ev.out) # Len(es) THEN {"entry-count"}
         ELSE IF \A k \in 1..Len(es) : SameEntry(ev.out[k], es[k]) THEN {} ELSE {"entry"}

ReadFails(s, ev) ==
    LET r == Content(s.es[ev.i], s.blobs, s.hasToc, s.toc, ToString) IN
    IF ~r.ok THEN (IF ev.status = "ok" THEN {"bad-entry-read"} ELSE {})
    ELSE IF ev.status # "ok" THEN {"read-failed"}
    ELSE IF r.none THEN (IF ev.none THEN {} ELSE {"unreadable-read"})
    ELSE IF ev.none THEN {"not-read"}
    ELSE IF ev.data # r.data THEN {"content"} ELSE {}

TFails(s, ev) == CASE ev.op = "decode" -> DecodeFails(s, ev) [] ev.op = "read" -> ReadFails(s, ev) [] OTHER -> {"unknown-event"}
TInit(case) == [es |-> Entries(case.header), blobs |-> case.blobs, hasToc |-> case.hasToc, toc |-> case.toc]
TPost(s, ev) == s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
