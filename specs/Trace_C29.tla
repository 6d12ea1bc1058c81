------------------------------ MODULE Trace_C29 ------------------------------
(* Files generated by the real code for game data                            *)
EXTENDS Tft, TLC
VARIABLES c, l, st

If(b, name) == IF b THEN {name} ELSE {}
Langs(fs) == {fs[i][1] : i \in 1..Len(fs)}
Min(ev) == IF ev.what = "tft" THEN 914 ELSE 1314

FGenerate(s, ev) ==
    LET ts == Tables(s.tables, IF ev.what = "tft" THEN "tft" ELSE "lol")
        have == {ts[i].lang : i \in 1..Len(ts)}
        asked == IF ev.langs = <<"*">> THEN have ELSE {ev.langs[i] : i \in 1..Len(ev.langs)}
        table(n) == ts[CHOOSE i \in 1..Len(ts) : ts[i].lang \o ".json" = n]
        (* Arena data is only translated by string tables *)
        readable == ev.what = "tft" \/ \A i \in 1..Len(ts) : ts[i].lang \in asked => ts[i].kind = "rst"
        possible == asked \subseteq have /\ ts # << >> /\ readable
        sound == IF ev.what = "tft" THEN s.supported /\ ~s.dangling ELSE ~s.arenaDangling
        data == IF ev.what = "tft" THEN s.tft ELSE s.arena
        wrong == {i \in 1..Len(ev.files) : ev.files[i][1] \in {x \o ".json" : x \in have} /\ ~Same(data, ev.files[i][2], table(ev.files[i][1]))}
    IN IF ev.exported /\ ev.version < Min(ev) THEN If(ev.files # << >> \/ ev.bad # << >>, "unsupported version") \cup If(ev.status # "ok", "failed")
       ELSE IF ev.what = "tft" /\ ~s.supported THEN {}
       ELSE If(ev.status = "ok" /\ ~possible, "missing language accepted") \cup If(ev.status # "ok" /\ possible /\ sound, "failed")
            \cup If(ev.status = "ok" /\ Langs(ev.files) # {x \o ".json" : x \in asked}, "files")
            \cup If(ev.bad # << >>, "invalid file")
            \cup If(wrong # {}, "content") \cup UNION {Where(data, ev.files[i][2], table(ev.files[i][1]), "") : i \in wrong}

TFails(s, ev) == CASE ev.op = "data" -> {} [] ev.op = "generate" -> FGenerate(s, ev) [] OTHER -> {"observation"}
TPost(s, ev) ==
    IF ev.op # "data" THEN s
    ELSE LET ok == Supported(ev.tft)
         IN [tables |-> [i \in 1..Len(ev.tables) |-> Names(ev.tables[i])], supported |-> ok, dangling |-> Dangling(ev.tft, ev.chars), arenaDangling |-> ArenaDangling(ev.arena),
             tft |-> IF ok THEN TftData(ev.tft, ev.chars) ELSE Unspec, arena |-> ArenaData(ev.arena)]
TInit(case) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
