------------------------------ MODULE Trace_C24 ------------------------------
(* Hash lists used through HashFile objects, fetched from a server. State:   *)
(* the files [n, text, t] and, by object, what it holds in memory.           *)
EXTENDS HashLists
VARIABLES c, l, st

SeqSet(s) == {s[i] : i \in 1..Len(s)}
File(disk, n) == LET f == {x \in disk : x.n = n}
                 IN IF f = {} THEN [there |-> FALSE, text |-> << >>, t |-> 0]
                    ELSE LET x == CHOOSE y \in f : TRUE IN [there |-> TRUE, text |-> x.text, t |-> x.t]
Others(disk, names) == {x \in disk : x.n \notin names}
Pairs(s) == {[h |-> s[i].h, p |-> s[i].p] : i \in 1..Len(s)}
Surrogate(p) == \E i \in 1..Len(p) : p[i] >= 55296 /\ p[i] <= 57343

If(b, name) == IF b THEN {name} ELSE {}

FLoad(s, ev) ==
    LET o == s.mem[ev.o]  f == File(s.disk, o.n)
        reads == ev.force \/ ~o.on
        good == f.there /\ GoodText(f.text)
    IN IF ~reads THEN If(ev.status # "ok" \/ Pairs(ev.map) # o.map, "cached-list")
       ELSE IF ~f.there THEN If(ev.status # "missing", "missing-list")
       ELSE IF ~good THEN If(ev.status = "ok", "malformed-list")
       ELSE If(ev.status # "ok", "refused") \cup If(ev.status = "ok" /\ Pairs(ev.map) # MapOf(f.text), "loaded-list")

FSave(s, ev) ==
    LET o == s.mem[ev.o]  old == File(s.disk, o.n)  new == File(SeqSet(ev.disk), o.n)
        can == o.on /\ \A e \in o.map : ~Surrogate(e.p)
        saved == can /\ new.there /\ SavedAs(o.map, o.size, new.text)
    IN If(Others(SeqSet(ev.disk), {o.n}) # Others(s.disk, {o.n}), "other-list")
       \cup If(ev.extra /\ ev.status # "killed", "leftover")
       \cup CASE ev.status = "ok" -> If(~saved, "saved-list")
              [] ev.status = "killed" -> If(~(new = old \/ saved), "truncated")
              [] OTHER -> If(can /\ ~ev.fault, "refused") \cup If(new # old /\ ~saved, "truncated")

FFetch(s, ev) ==
    LET names == SeqSet(ev.names)  disk == SeqSet(ev.disk)
        srv(n) == CHOOSE x \in SeqSet(ev.server) : x.n = n
        needs(n) == LET f == File(s.disk, n) IN MustFetch(f.there, f.t, srv(n).t)
        bad(n) == srv(n).fault \in {"missing", "refuse", "status"} \/ (srv(n).fault = "cut" /\ needs(n)) \/ (srv(n).fault = "head" /\ File(s.disk, n).there)
        anybad == \E n \in names : bad(n)
        same(n) == File(disk, n) = File(s.disk, n)
        new(n) == File(disk, n).there /\ File(disk, n).text = srv(n).text
    IN If(Others(disk, names) # Others(s.disk, names), "other-list")
       \cup If(ev.extra /\ ev.status # "killed", "leftover")
       \cup If(ev.status = "ok" /\ anybad, "error-ignored")
       \cup If(ev.status = "raised" /\ ~anybad /\ ~ev.fault, "refused")
       \cup UNION {IF bad(n) THEN If(~same(n), "failed-fetch")
                   ELSE IF ~needs(n) THEN If(~same(n) \/ n \in SeqSet(ev.gets), "up-to-date")
                   ELSE IF ev.status = "ok" THEN If(~new(n), "not-updated")
                   ELSE If(~(same(n) \/ new(n) \/ (ev.fault /\ ~File(disk, n).there)), "truncated") : n \in names}

EndsWith(p, x) == Len(p) >= Len(x) /\ SubSeq(p, Len(p) - Len(x) + 1, Len(p)) = x
DotWad == <<46, 119, 97, 100>>
DotClient == <<46, 99, 108, 105, 101, 110, 116>>
FDefault(ev) == If(ev.got # (IF EndsWith(ev.path, DotWad \o DotClient) THEN "game" ELSE IF EndsWith(ev.path, DotWad) THEN "lcu" ELSE "refused"), "default-list")

(* where default lists are *)
SubDir == "/hashes/lol"
Absolute(p) == p # "" /\ SubSeq(p, 1, 1) = "/"
ListDir(v) ==
    IF v.CDTB_HASHES_DIR # "" THEN v.CDTB_HASHES_DIR
    ELSE IF v.CDRAGON_DATA # "" THEN v.CDRAGON_DATA \o SubDir
    ELSE (IF Absolute(v.XDG_DATA_HOME) THEN v.XDG_DATA_HOME ELSE IF v.LOCALAPPDATA # "" THEN v.LOCALAPPDATA ELSE v.HOME \o "/.local/share") \o "/cdragon/data" \o SubDir
DefaultLists == [ hashfile_lcu |-> "lcu", hashfile_game |-> "game", hashfile_binentries |-> "binentries", hashfile_binhashes |-> "binhashes",
                  hashfile_binfields |-> "binfields", hashfile_bintypes |-> "bintypes", hashfile_rst_xxh64 |-> "rst.xxh64", hashfile_rst_xxh3 |-> "rst.xxh3" ]
FPlace(ev) ==
    LET d == ListDir(ev.vars)
        dir == IF Absolute(d) THEN d ELSE "/S/cwd/" \o d
        short == {"binentries", "binhashes", "binfields", "bintypes"}
        want == {[path |-> dir \o "/hashes." \o DefaultLists[k] \o ".txt", text |-> (IF DefaultLists[k] \in short THEN "000000ab " ELSE "00000000000000ab ") \o k \o "\n"] : k \in DOMAIN DefaultLists}
    IN If(ev.status # "ok", "refused") \cup If(SeqSet(ev.files) # want, "location")

TFails(s, ev) ==
    CASE ev.op = "place" -> FPlace(ev)
      [] ev.op = "load" -> FLoad(s, ev)
      [] ev.op = "save" -> FSave(s, ev)
      [] ev.op = "fetch" -> FFetch(s, ev)
      [] ev.op = "default" -> FDefault(ev)
      [] ev.op \in {"set", "del", "restart", "disk"} -> {}
      [] OTHER -> {"observation"}

TPost(s, ev) ==
    CASE ev.op = "load" -> IF ev.status = "ok" THEN [s EXCEPT !.mem[ev.o] = [@ EXCEPT !.on = TRUE, !.map = Pairs(ev.map)]] ELSE s
      [] ev.op = "set" -> [s EXCEPT !.mem[ev.o] = [@ EXCEPT !.map = SetHash(@, ev.h, ev.p)]]
      [] ev.op = "del" -> [s EXCEPT !.mem[ev.o] = [@ EXCEPT !.map = DelHash(@, ev.h)]]
      [] ev.op = "restart" -> [s EXCEPT !.mem[ev.o] = [@ EXCEPT !.on = FALSE, !.map = {}]]
      [] ev.op \in {"save", "fetch", "disk"} -> [s EXCEPT !.disk = SeqSet(ev.disk)]
      [] OTHER -> s
TInit(case) == [disk |-> {}, mem |-> [i \in 1..Len(case.cfg.objs) |-> [n |-> case.cfg.objs[i].n, size |-> case.cfg.objs[i].size, on |-> FALSE, map |-> {}]]]
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
