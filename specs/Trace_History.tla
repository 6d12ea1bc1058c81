--------------------------- MODULE Trace_History ---------------------------
(* Listings and lookups (C02, C03). Every event has the history before and   *)
(* after it; update checks made by the listing are part of the event.        *)
(*   ev.h, ev.after      histories (of what a stored/full listing may see)   *)
(*   ev.rels, ev.rels2   recorded pairs of manifests before/after            *)
(*   ev.adv              advertised pair (<< >> if there is no update check) *)
EXTENDS History
VARIABLES c, l, st

RangeOf(s) == {s[i] : i \in 1..Len(s)}
SameItems(s, S) == RangeOf(s) = S /\ Len(s) = Cardinality(S)

(* the first patches of a listing *)
PatchesPrefix(H, out) ==
    /\ {out[i].v : i \in 1..Len(out)} \subseteq VersionsOf(H)
    /\ \A i, j \in 1..Len(out) : i < j => PLess(out[j].v, out[i].v)
    /\ \A v \in VersionsOf(H) : (\E i \in 1..Len(out) : out[i].v = v) \/ (\A i \in 1..Len(out) : PLess(v, out[i].v))
    /\ \A i \in 1..Len(out) : out[i].elems = PatchElems(H, out[i].v)

(* effect on the storage *)
EffectFails(ev) ==
    LET updated == ev.rels2 = AfterUpdate(ev.rels, ev.adv)
    IN IF ev.mode = "stored"
       THEN (IF ev.requests > 0 THEN {"update-requests"} ELSE {}) \cup (IF ev.rels2 # ev.rels \/ ev.changed THEN {"changed"} ELSE {})
       ELSE IF ev.mode = "update"
       THEN (IF ev.adv = << >> \/ updated THEN {} ELSE {"not-updated"}) \cup (IF ev.changed THEN {"changed"} ELSE {})
       ELSE (IF ev.adv = << >> \/ updated \/ ev.rels2 = ev.rels THEN {} ELSE {"not-updated"}) \cup (IF ev.changed THEN {"changed"} ELSE {})

ListFails(ev) ==
    IF ev.status # "ok" THEN {"failed"}
    ELSE IF ev.op = "elements" THEN (IF ElementsOK(ev.after, ev.out) THEN {} ELSE {"elements"})
    ELSE IF ev.op = "patches" THEN (IF PatchesOK(ev.after, ev.out) THEN {} ELSE {"patches"})
    ELSE IF PatchesPrefix(ev.after, ev.out) /\ (Len(ev.out) = ev.take \/ Len(ev.out) = Cardinality(VersionsOf(ev.after))) THEN {} ELSE {"patches-prefix"}

(* lookups through the API: version given as numbers *)
FindFails(ev) ==
    IF ev.status # "ok" THEN {"failed"}
    ELSE IF ev.res = Answer(ev.after, ev.what, ev.form, ev.v) THEN {} ELSE {"wrong-answer"}

(* stored releases only, or all: both are fine when a version is given       *)
Views(ev) == IF ev.mode = "any" THEN {ev.h, ev.after} ELSE {ev.after}

ComponentFails(ev) ==
    LET p == ParseComponent(ev.text)
    IN CASE p.form = "invalid" -> IF ev.status = "invalid" THEN {} ELSE {"not-rejected"}
         [] p.form = "nothing" -> IF ev.status = "invalid" \/ (ev.status = "ok" /\ ev.res = NoAnswer) THEN {} ELSE {"wrong-answer"}
         [] OTHER -> IF ev.status # "ok" THEN {"failed"}
                     ELSE IF \E H \in Views(ev) : ev.res = Answer(H, p.what, p.form, p.v) THEN {} ELSE {"wrong-answer"}

(* files command *)
ElemsOf(a) == CASE a.kind = "none" -> {}
                [] a.kind = "element" -> {<<a.name, a.rel>>}
                [] a.kind = "patch" -> {<<n, a.elems[n]>> : n \in DOMAIN a.elems}
Pos(n) == IF n = "client" THEN 1 ELSE 2
Listed(s, ev, e) == LET man == s.files[ev.rels2[e[2]][Pos(e[1])]]
                    IN {f \in RangeOf(man) : ev.langs \/ ~f.locale}
FilesOf(s, ev, a) ==
    IF a = NoAnswer THEN ev.status = "exit:2" /\ ev.out = << >>
    ELSE /\ ev.status = "ok"
         /\ IF ev.relative
            THEN RangeOf(ev.out) = UNION {{<<0, f.lpath>> : f \in Listed(s, ev, e)} : e \in ElemsOf(a)}
            ELSE SameItems(ev.out, UNION {{<<e[2], f.path>> : f \in Listed(s, ev, e)} : e \in ElemsOf(a)})
FilesFails(s, ev) ==
    LET p == ParseComponent(ev.text)
    IN IF \E H \in Views(ev) : FilesOf(s, ev, IF p.form = "invalid" THEN NoAnswer ELSE Answer(H, p.what, p.form, p.v))
       THEN {} ELSE {"wrong-files"}

VersionsFails(ev) ==
    LET want == {v \in VersionsOf(ev.after) : ev.what = "patch" \/ Carriers(ev.after, ev.what, v) # {}}
    IN IF ev.status # "ok" THEN {"failed"}
       ELSE IF SameItems(ev.out, want) /\ \A i, j \in 1..Len(ev.out) : i < j => PLess(ev.out[j], ev.out[i]) THEN {} ELSE {"wrong-versions"}

TFails(s, ev) ==
    EffectFails(ev) \cup
    CASE ev.op \in {"elements", "patches", "take"} -> ListFails(ev)
      [] ev.op = "find" -> FindFails(ev)
      [] ev.op = "component" -> ComponentFails(ev)
      [] ev.op = "files" -> FilesFails(s, ev)
      [] ev.op = "versions" -> VersionsFails(ev)
      [] OTHER -> {"unknown-event"}

TInit(case) == [files |-> case.files]
TPost(s, ev) == s

INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
