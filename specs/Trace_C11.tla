----------------------------- MODULE Trace_C11 -----------------------------
(* Queries on a solution version. case: lines (of the manifest), name,       *)
(* version, files: "project=version" -> seq of [path, lpath]                 *)
EXTENDS Solution
VARIABLES c, l, st

Key(p) == p[1] \o "=" \o p[2]
Langs0 == {"en_us", "de_de", "fr_fr", "ko_kr"}
SameItems(s, S) == RangeOf(s) = S /\ Len(s) = Cardinality(S)
FilesOf(s, ps) == UNION {{<<Key(p), f.path, f.lpath>> : f \in RangeOf(s.files[Key(p)])} : p \in ps}

QueryFails(s, ev) ==
    IF ~s.m.ok THEN (IF ev.status = "ok" THEN {"not-rejected"} ELSE {})
    ELSE IF ev.status # "ok" THEN {"failed"}
    ELSE LET sel == Selected(s.m, ev.sel)
             files == FilesOf(s, sel)
         IN CASE ev.op = "projects" -> IF SameItems(ev.out, sel) THEN {} ELSE {"projects"}
              [] ev.op = "paths" -> IF SameItems(ev.out, files) THEN {} ELSE {"paths"}
              [] ev.op = "fspaths" -> IF SameItems(ev.out, {<<f[1], f[2]>> : f \in files}) THEN {} ELSE {"fspaths"}
              [] ev.op = "relpaths" -> IF /\ RangeOf(ev.out) = {f[3] : f \in files} /\ Len(ev.out) = Cardinality(files)
                                       THEN {} ELSE {"relpaths"}
              [] ev.op = "zip" -> IF ev.out = ev.pairs THEN {} ELSE {"correspondence"}
              [] ev.op = "download" ->
                   (IF {<<f[1], f[2]>> : f \in files} \subseteq RangeOf(ev.out) THEN {} ELSE {"not-downloaded"})
                   \cup (IF RangeOf(ev.out) \subseteq {<<f[1], f[2]>> : f \in files} \cup RangeOf(ev.before) THEN {} ELSE {"downloaded-extra"})
                   \cup (IF ev.wrong = << >> THEN {} ELSE {"content"})

TFails(s, ev) == IF ev.op \in {"projects", "paths", "fspaths", "relpaths", "zip", "download"} THEN QueryFails(s, ev) ELSE {"unknown-event"}
TInit(case) == [m |-> Parse(case.lines, case.name, case.version, Langs0), files |-> case.files]
TPost(s, ev) == s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
