------------------------------ MODULE Trace_C26 ------------------------------
(* Files decoded, converted and accessed by the real code                    *)
EXTENDS Bin
VARIABLES c, l, st

If(b, name) == IF b THEN {name} ELSE {}
Hash(k) == IF k.how = "name" THEN Fnv(k.b) ELSE k.b

FDecode(ev) ==
    LET d == Decode(ev.bytes, ev.tv)
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN {"rejected"}
       ELSE If(ev.version # d.version, "version") \cup If(ev.hasLinked # d.hasLinked \/ ev.linked # d.linked, "linked-files")
            \cup If(ev.entries # d.entries, "entries") \cup If(ev.hasPatches # d.hasPatches \/ ev.patches # d.patches, "patches")

FJson(ev) ==
    LET d == Decode(ev.bytes, ev.tv)
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN {"rejected"}
       ELSE If(~Same(JsonFile(d, ev.names), ev.json), "json")

(* the same, with names in place of known hashes; that there are no patches is not told *)
FText(ev) ==
    LET d == Decode(ev.bytes, ev.tv)
        list(k) == CASE k = "fields" -> ev.names.fields [] k = "types" -> ev.names.types [] k = "hashes" -> ev.names.hashes [] k = "entries" -> ev.names.entries [] OTHER -> ev.names.paths
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN {"text-unreadable"}
       ELSE If(ev.hasLinked # d.hasLinked \/ ev.linked # d.linked, "text-linked-files") \cup If(ev.entries # d.entries, "text-entries") \cup If(ev.patches # d.patches, "text-patches")
            \cup If(\E i \in 1..Len(ev.shown) : ev.shown[i].t # NameOf(list(ev.shown[i].k), ev.shown[i].h), "text-name")

FAccess(ev) ==
    LET at == FieldAt(ev.hashes, Hash(ev.key))
    IN If(ev.at # at, "item") \cup If(ev.contains # (at # 0), "contains") \cup If(ev.get # at, "get")
       \cup If(IF at = 0 THEN ev.getv # <<0>> ELSE \A i \in 1..Len(ev.getv) : ev.getv[i] # at, "value")

FPath(ev) ==
    LET a == FieldAt(ev.hashes, Hash(ev.key))
        at == IF a = 0 THEN 0 ELSE FieldAt(ev.subs, Hash(ev.key2))
    IN If(IF at = 0 THEN ev.got # <<0>> ELSE \A i \in 1..Len(ev.got) : ev.got[i] # at, "path")

FSet(ev) ==
    LET at == FieldAt(ev.hashes, Hash(ev.key))
    IN If(ev.after # (IF at = 0 THEN Append(ev.hashes, Hash(ev.key)) ELSE ev.hashes) \/ ev.replaced # (IF at = 0 THEN Len(ev.hashes) + 1 ELSE at), "set")

(* A hashed value is equal to its hash, and to its name: the known one, or any which has its hash *)
FEq(ev) ==
    LET known == {i \in 1..Len(ev.names) : ev.names[i][1] = ev.hash}
        name == ev.names[CHOOSE i \in known : \A k \in known : i <= k][2]
        equal == CASE ev.other.how # "text" -> ev.other.b = ev.hash
                   [] known # {} -> ev.other.b = name
                   [] OTHER -> (IF ev.wide THEN ev.other.hash ELSE Fnv(ev.other.b)) = ev.hash
    IN If(ev.status # "ok", "compared")
       \cup If(ev.status = "ok" /\ (ev.eq # equal \/ ev.ne = equal), "equal")
       \cup If(ev.status = "ok" /\ ev.other.how # "text" /\ ev.in # equal, "in-set")

TFails(s, ev) ==
    CASE ev.op = "decode" -> FDecode(ev)
      [] ev.op = "text" -> FText(ev)
      [] ev.op = "json" -> FJson(ev)
      [] ev.op = "access" -> FAccess(ev)
      [] ev.op = "path" -> FPath(ev)
      [] ev.op = "set" -> FSet(ev)
      [] ev.op = "eq" -> FEq(ev)
      [] OTHER -> {"observation"}
TPost(s, ev) == s
TInit(case) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
