------------------------------ MODULE Trace_C27 ------------------------------
(* String tables decoded, searched and converted by the real code            *)
EXTENDS Rst
VARIABLES c, l, st

If(b, name) == IF b THEN {name} ELSE {}

FDecode(ev) ==
    LET d == Decode(ev.bytes, ev.gv)
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN If(d.sound, "rejected")
       ELSE If(ev.version # d.version, "version") \cup If(ev.bits # d.bits, "hash-bits") \cup If(ev.hasConfig # d.hasConfig \/ Text(ev.config) # d.config, "font-config")
            \cup If(~SameEntries(d.entries, ev.entries), "entries")

(* entry of a key; names have a different hash from 14.15 *)
Wanted(ev) == Trunc(IF ev.key.how = "name" THEN (IF ev.gv < 1415 THEN ev.key.xxh64 ELSE ev.key.xxh3) ELSE ev.key.num, ev.bits)
FLookup(ev) ==
    LET at == {i \in 1..Len(ev.entries) : ev.entries[i].h = Wanted(ev)}
        text == IF at = {} THEN << >> ELSE ev.entries[CHOOSE i \in at : TRUE].text
        none == ev.key.how = "other" \/ at = {}
    IN If(ev.contains = none, "contains") \cup If(ev.item.found = none \/ (~none /\ ev.item.text # text), "item")
       \cup If(ev.get.found = none \/ (~none /\ ev.get.text # text), "get")

FJson(ev) ==
    LET d == Decode(ev.bytes, ev.gv)
        k(e) == KeysOf(ev.known, e.h, d.bits)
    IN If(ev.raw # ev.bytes, "copy")
       \cup (IF ~d.ok THEN If(ev.status = "ok", "accepted")
             ELSE IF ev.status # "ok" THEN If(d.sound, "rejected")
             ELSE If(ev.version # d.version, "version") \cup If(Len(ev.got) # Len(d.entries), "count")
                  \cup If(\E i \in 1..Len(d.entries) : ~\E g \in 1..Len(ev.got) :
                            ev.got[g].key \in k(d.entries[i]) /\ (d.entries[i].defined => Text(ev.got[g].text) = d.entries[i].text), "json"))

TFails(s, ev) ==
    CASE ev.op = "decode" -> FDecode(ev)
      [] ev.op = "lookup" -> FLookup(ev)
      [] ev.op = "json" -> FJson(ev)
      [] OTHER -> {"observation"}
TPost(s, ev) == s
TInit(case) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
