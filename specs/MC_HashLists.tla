---------------------------- MODULE MC_HashLists ----------------------------
(* A hash list used by a process which loads, changes and saves it, while    *)
(* the list may be fetched again. Writing goes through a temporary file;     *)
(* processes may stop at any step. Contents are small mappings, files are    *)
(* texts: what a save writes is one of the texts allowed by SavedAs.         *)
EXTENDS HashLists, TLC, Json
CONSTANTS MaxOps, Emit
VARIABLES disk, tmp, mem, mtime, server, smtime, clock, todo, complete, ops
vars == <<disk, tmp, mem, mtime, server, smtime, clock, todo, complete, ops>>

Hs == {<<1>>, <<10, 0>>}
Ps == {<<97>>, <<97, 32, 98>>}
Absent == [there |-> FALSE, text |-> << >>]
There(t) == [there |-> TRUE, text |-> t]
Unloaded == [on |-> FALSE, map |-> {}]
Loaded(m) == [on |-> TRUE, map |-> m]
Idle == [op |-> "idle", left |-> << >>]

(* texts of a mapping: all orders of its lines *)
RECURSIVE Texts(_)
Texts(map) == IF map = {} THEN {<< >>}
              ELSE UNION {{LineOf(e, 2) \o <<LF>> \o t : t \in Texts(map \ {e})} : e \in map}
SavedTexts(map) == {t \in Texts(map) : SavedAs(map, 2, t)}

ServerTexts == {<<49, 32, 97, 10>>, <<97, 48, 32, 97, 10, 49, 32, 98, 10>>}

Init == /\ disk = Absent /\ tmp = Absent /\ mem = Unloaded /\ mtime = 0 /\ server \in ServerTexts /\ smtime = 1
        /\ clock = 1 /\ todo = Idle /\ complete = {<< >>} /\ ops = << >>

Can == todo.op = "idle" /\ Len(ops) < MaxOps
Log(o) == ops' = Append(ops, o)
Load == /\ Can /\ \E force \in BOOLEAN :
              /\ Log([o |-> IF force THEN "reload" ELSE "load", h |-> << >>, p |-> << >>])
              /\ mem' = IF disk.there /\ (force \/ ~mem.on) THEN Loaded(MapOf(disk.text)) ELSE mem
        /\ UNCHANGED <<disk, tmp, mtime, server, smtime, clock, todo, complete>>
Set == /\ Can /\ mem.on /\ \E h \in Hs, p \in Ps : mem' = Loaded(SetHash(mem.map, h, p)) /\ Log([o |-> "set", h |-> h, p |-> p])
       /\ UNCHANGED <<disk, tmp, mtime, server, smtime, clock, todo, complete>>
Del == /\ Can /\ mem.on /\ \E h \in Hs : mem' = Loaded(DelHash(mem.map, h)) /\ Log([o |-> "del", h |-> h, p |-> << >>])
       /\ UNCHANGED <<disk, tmp, mtime, server, smtime, clock, todo, complete>>
Save == /\ Can /\ mem.on /\ \E t \in SavedTexts(mem.map) : todo' = [op |-> "save", left |-> t]
        /\ tmp' = There(<< >>) /\ Log([o |-> "save", h |-> << >>, p |-> << >>])
        /\ complete' = complete \cup {todo'.left}
        /\ UNCHANGED <<disk, mem, mtime, server, smtime, clock>>
Fetch == /\ Can /\ Log([o |-> "fetch", h |-> << >>, p |-> << >>])
         /\ IF MustFetch(disk.there, mtime, smtime)
            THEN todo' = [op |-> "fetch", left |-> server] /\ tmp' = There(<< >>) /\ complete' = complete \cup {server}
            ELSE UNCHANGED <<todo, tmp, complete>>
         /\ UNCHANGED <<disk, mem, mtime, server, smtime, clock>>
Publish == /\ Can /\ \E t \in ServerTexts : server' = t
           /\ clock' = clock + 1 /\ smtime' = clock' /\ Log([o |-> "publish", h |-> << >>, p |-> << >>])
           /\ UNCHANGED <<disk, tmp, mem, mtime, todo, complete>>
Remove == /\ Can /\ disk.there /\ disk' = Absent /\ Log([o |-> "remove", h |-> << >>, p |-> << >>])
          /\ UNCHANGED <<tmp, mem, mtime, server, smtime, clock, todo, complete>>
Restart == /\ Can /\ mem.on /\ mem' = Unloaded /\ Log([o |-> "restart", h |-> << >>, p |-> << >>])
           /\ UNCHANGED <<disk, tmp, mtime, server, smtime, clock, todo, complete>>
Write == /\ todo.op # "idle" /\ todo.left # << >>
         /\ tmp' = There(Append(tmp.text, Head(todo.left))) /\ todo' = [todo EXCEPT !.left = Tail(@)]
         /\ UNCHANGED <<disk, mem, mtime, server, smtime, clock, complete, ops>>
Finish == /\ todo.op # "idle" /\ todo.left = << >>
          /\ disk' = tmp /\ tmp' = Absent /\ mtime' = clock /\ todo' = Idle
          /\ UNCHANGED <<mem, server, smtime, clock, complete, ops>>
(* an error (the temporary file is removed), or the end of the process *)
Fail == /\ todo.op # "idle" /\ tmp' = Absent /\ todo' = Idle /\ UNCHANGED <<disk, mem, mtime, server, smtime, clock, complete, ops>>
Kill == /\ todo.op # "idle" /\ todo' = Idle /\ mem' = Unloaded /\ UNCHANGED <<disk, tmp, mtime, server, smtime, clock, complete, ops>>
Next == Load \/ Set \/ Del \/ Save \/ Fetch \/ Publish \/ Remove \/ Restart \/ Write \/ Finish \/ Fail \/ Kill
Spec == Init /\ [][Next]_vars

NeverTruncated == disk.there => disk.text \in complete
(* saving then loading gives the same mapping *)
RoundTrip == todo.op = "save" => \A t \in {todo.left} : LET full == tmp.text \o t IN GoodText(full) /\ MapOf(full) = mem.map
LoadIsDisk == [][(mem # mem' /\ mem'.on /\ ops' # ops /\ ops'[Len(ops')].o \in {"load", "reload"}) => mem'.map = MapOf(disk.text)]_vars
FreshKept == [][(disk # disk' /\ todo.op = "fetch" /\ todo'.op = "idle") => (~disk.there \/ smtime > mtime)]_vars
View == <<disk, tmp, mem, mtime, server, smtime, clock, todo, complete, Len(ops)>>
EmitOps == (Emit /\ Len(ops) = MaxOps /\ todo.op = "idle") => PrintT("SCENARIO " \o ToJson([ops |-> ops]))
=============================================================================
