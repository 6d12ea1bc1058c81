------------------------------ MODULE Trace_C28 ------------------------------
(* Meshes, atlas and skins information read and converted by the real code   *)
EXTENDS Naturals, Sequences
M == INSTANCE Mesh
I == INSTANCE Infos
VARIABLES c, l, st

If(b, name) == IF b THEN {name} ELSE {}

(* values of the mesh *)
FMesh(ev) ==
    LET d == M!Decode(ev.bytes)
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN If(d.sound, "rejected")
       ELSE If(Len(ev.subs) # Len(d.subs), "submeshes")
            \cup If(\E i \in 1..Len(d.subs) : i <= Len(ev.subs) /\ (ev.subs[i].name # d.subs[i].name \/ (d.subs[i].sound /\ (ev.subs[i].verts # d.subs[i].verts \/ ev.subs[i].idx # d.subs[i].idx))), "values")
(* files written for a mesh, by the converter or the command *)
FFiles(ev) ==
    LET d == M!Decode(ev.bytes)
        good(f, s) == f.name = M!FileName(s) /\ (s.sound => [v |-> f.v, vt |-> f.vt, vn |-> f.vn, f |-> f.f] = M!OfSub(s))
    IN If(ev.raw # ev.bytes, "copy")
       \cup (IF ~d.ok THEN If(ev.status = "ok", "accepted") \cup If(ev.files # << >>, "files-of-invalid")
             ELSE IF ev.status # "ok" THEN If(d.sound, "rejected")
             ELSE If({ev.files[i].name : i \in 1..Len(ev.files)} # M!Names(d.subs), "files")
                  \cup If(\E i \in 1..Len(ev.files) : ~\E k \in 1..Len(d.subs) : good(ev.files[i], d.subs[k]), "obj"))
FAtlas(ev) ==
    LET d == I!Atlas(ev.bytes, ev.known)
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN If(d.sound, "rejected")
       ELSE IF ~d.sound THEN {}
       ELSE If(~I!SameSet(d.textures, ev.textures), "atlas")
FSkins(ev) ==
    LET d == I!Skins(ev.bytes)
    IN IF ~d.ok THEN If(ev.status = "ok", "accepted")
       ELSE IF ev.status # "ok" THEN If(d.sound, "rejected")
       ELSE IF ~d.sound THEN {}
       ELSE If(~I!SameSkins(d.champions, ev.champions), "skins")

TFails(s, ev) ==
    CASE ev.op = "mesh" -> FMesh(ev)
      [] ev.op = "files" -> FFiles(ev)
      [] ev.op = "atlas" -> FAtlas(ev)
      [] ev.op = "skins" -> FSkins(ev)
      [] OTHER -> {"observation"}
TPost(s, ev) == s
TInit(case) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
