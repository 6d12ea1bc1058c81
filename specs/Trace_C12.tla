----------------------------- MODULE Trace_C12 -----------------------------
(* Queries of patch versions. case: srcs, a sequence of sources. Events:     *)
(*   query: p, failing (its files can't be fetched), status, v, fetched      *)
(*          (anything was requested)                                         *)
(*   listing: status, items, a sequence of [p, v], only (sources listed),    *)
(*          fetched                                                          *)
EXTENDS VersionCache
VARIABLES c, l, st

Kind(s, p) == s.srcs[p].kind
Stat(s, p) == s.stated[p]
Known(s, p) == p \in s.mem \/ Kind(s, p) = "main"

QueryFails(s, ev) ==
    LET p == ev.p
        want == Stat(s, p)
    IN IF Known(s, p)
       THEN (IF ev.status = "ok" THEN {} ELSE {"not-answered-again"})
            \cup (IF ev.status = "ok" /\ ev.v # want THEN {"wrong-version"} ELSE {})
            \cup (IF ev.fetched THEN {"fetched-again"} ELSE {})
       ELSE IF want.k = "none" THEN (IF ev.status = "ok" /\ ev.v.k # "none" THEN {"invented-version"} ELSE {})
       ELSE IF ev.failing
       THEN (IF ev.status = "ok" /\ ev.v # want /\ ev.v # None THEN {"wrong-version"} ELSE {})
       ELSE IF ev.status # "ok" THEN {"not-answered"}
       ELSE IF ev.v # want THEN {"wrong-version"} ELSE {}

ListingFails(s, ev) ==
    LET group == {ev.only[i] : i \in 1..Len(ev.only)}
        pending == {p \in group : ~Known(s, p)}
        listed == {ev.items[i].p : i \in 1..Len(ev.items)}
        (* files which are not there anymore have no version, other ones may fail *)
        sound == \A p \in pending : Stat(s, p).k = "version" \/ Kind(s, p) = "lost"
    IN (IF ev.status = "ok" /\ \E i \in 1..Len(ev.items) : ev.items[i].v # Stat(s, ev.items[i].p) THEN {"wrong-version"} ELSE {})
       \cup (IF ev.fetched /\ pending = {} THEN {"fetched-again"} ELSE {})
       \cup (IF ev.status # "ok" /\ sound /\ (pending = {} \/ ~ev.failing) THEN {"not-answered"} ELSE {})
       \cup (IF ev.status = "ok" /\ ~({p \in group : Known(s, p)} \subseteq listed) THEN {"missing"} ELSE {})
       \cup (IF ev.status = "ok" /\ sound /\ ~ev.failing /\ ~({p \in group : Stat(s, p).k # "none"} \subseteq listed) THEN {"missing"} ELSE {})

TFails(s, ev) == IF ev.op = "query" THEN QueryFails(s, ev)
                 ELSE IF ev.op = "listing" THEN ListingFails(s, ev) ELSE {"unknown-event"}
TInit(case) == [srcs |-> case.srcs, stated |-> [p \in 1..Len(case.srcs) |-> Stated(case.srcs[p])],
                all |-> 1..Len(case.srcs), mem |-> {}]
TPost(s, ev) == IF ev.op = "query" THEN [s EXCEPT !.mem = Remember(s.mem, ev.p, [status |-> ev.status, v |-> ev.v])]
                ELSE IF ev.status = "ok" THEN [s EXCEPT !.mem = s.mem \cup {ev.items[i].p : i \in {j \in 1..Len(ev.items) : ev.items[j].v.k = "version"}}]
                ELSE s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
