----------------------------- MODULE Trace_C05 -----------------------------
(* Traces of downloads, queries and outside damage against Patcher.          *)
(* State: man (manifests), bundleOf, vis, bundles, mode of visible files.    *)
EXTENDS Patcher
VARIABLES c, l, st

AllFiles(s, rel) == UNION {RangeOf(s.man[k]) : k \in {k \in DOMAIN s.man : SubSeq(k, 1, Len(rel) + 1) = rel \o "/"}}
FileAt(s, k) == CHOOSE f \in AllFiles(s, SubSeq(k, 1, 2)) : Key(SubSeq(k, 1, 2), f) = k
Known(s, k) == \E f \in AllFiles(s, SubSeq(k, 1, 2)) : Key(SubSeq(k, 1, 2), f) = k /\ f.link = ""

Right(s, vis) == {k \in DOMAIN vis : Known(s, k) /\ vis[k].c = Content(FileAt(s, k))}

SharingFails(s, vis) ==
    LET ks == {k \in DOMAIN vis : Known(s, k)}
    IN (IF \E a, b \in ks : vis[a].real = vis[b].real /\ FileAt(s, a).chunks /= FileAt(s, b).chunks
        THEN {"shared-different"} ELSE {})
       \cup (IF \E a, b \in ks : a /= b /\ vis[a].lnk /\ vis[b].lnk /\ FileAt(s, a).chunks = FileAt(s, b).chunks /\ vis[a].real /= vis[b].real
             THEN {"not-shared"} ELSE {})
       \cup (IF \E a \in ks : ~vis[a].inside THEN {"outside"} ELSE {})

DownloadFails(s, ev) ==
    LET sel == Selected(s.man[ev.key], ev.langs)
        need == NeededBundles(s.man[ev.key], ev.langs, ev.skip, s.vis, ev.rel, s.bundleOf)
    IN IF ev.status /= "ok" THEN {"failed"}
       ELSE (IF Intact(ev.vis, ev.rel, sel) THEN {} ELSE {"content"})
        \cup (IF Frame(s.vis, ev.vis, ev.rel, sel, Right(s, s.vis), RangeOf(s.dangling)) THEN {} ELSE {"frame"})
        \cup SharingFails(s, ev.vis)
        \cup (IF ev.op = "extract"
              THEN IF ev.requested = << >> THEN {} ELSE {"extract-requests"}
              ELSE {x \in {"bundles-requested", "bundle-twice"} :
                     \/ x = "bundles-requested" /\ RangeOf(ev.requested) /= need \ RangeOf(s.bundles)
                     \/ x = "bundle-twice" /\ Len(ev.requested) /= Cardinality(RangeOf(ev.requested))})
        \cup (IF RangeOf(s.bundles) \subseteq RangeOf(ev.bundles) /\ need \subseteq RangeOf(ev.bundles) THEN {} ELSE {"bundles-stored"})
        \cup (IF ev.op = "download" /\ RangeOf(ev.bundles) /= RangeOf(s.bundles) \cup need THEN {"bundles-extra"} ELSE {})
        \cup (IF ev.odd = << >> THEN {} ELSE {"odd-files"})

QueryFails(s, ev) ==
    LET sel == Selected(s.man[ev.key], ev.langs)
    IN IF ev.status /= "ok" THEN {"failed"}
       ELSE {x \in {"paths", "paths-dup", "fspaths", "relpaths", "bundles-all", "bundles-skip", "elements"} :
          \/ x = "elements" /\ \E e \in RangeOf(ev.elems) : e /= ev.expected_elems
          \/ x = "paths" /\ RangeOf(ev.paths) /= {<<f.path, f.lpath>> : f \in sel}
          \/ x = "paths-dup" /\ Len(ev.paths) /= Cardinality(sel)
          \/ x = "fspaths" /\ ev.fspaths /= [i \in 1..Len(ev.paths) |-> ev.paths[i][1]]
          \/ x = "relpaths" /\ ev.relpaths /= [i \in 1..Len(ev.paths) |-> ev.paths[i][2]]
          \/ x = "bundles-all" /\ RangeOf(ev.bundles_all) /= NeededBundles(s.man[ev.key], ev.langs, FALSE, s.vis, ev.rel, s.bundleOf)
          \/ x = "bundles-skip" /\ RangeOf(ev.bundles_skip) /= NeededBundles(s.man[ev.key], ev.langs, TRUE, s.vis, ev.rel, s.bundleOf)}

(* a manifest is retrieved from its identifier or a proper location only *)
ManifestFails(s, ev) ==
    LET name == IF ev.byid THEN ev.name ELSE ManifestName(ev.url)
    IN IF name = "" THEN {x \in {"accepted", "refused-requests", "refused-writes"} :
                           \/ x = "accepted" /\ ev.status = "ok"
                           \/ x = "refused-requests" /\ ev.requests /= << >>
                           \/ x = "refused-writes" /\ ev.after /= ev.before}
       ELSE IF ev.status /= "ok" THEN {"refused"}
       ELSE {x \in {"manifest-path", "manifest-requests", "manifest-stored", "manifest-content"} :
               \/ x = "manifest-path" /\ ev.path /= "channels/public/releases/" \o name
               \/ x = "manifest-requests" /\ ev.requests /= (IF name \in RangeOf(ev.before) THEN << >> ELSE <<ev.good>>)
               \/ x = "manifest-stored" /\ RangeOf(ev.after) /= RangeOf(ev.before) \cup {name}
               \/ x = "manifest-content" /\ ~ev.same}

TFails(s, ev) ==
    CASE ev.op = "manifest" -> ManifestFails(s, ev)
      [] ev.op \in {"download", "extract"} -> DownloadFails(s, ev)
      [] ev.op = "query" -> QueryFails(s, ev)
      [] ev.op = "env" -> IF s.vis = << >> THEN {} ELSE SharingFails(s, ev.vis)
      [] OTHER -> {"unknown-event"}

TInit(case) == [man |-> case.man, bundleOf |-> case.bundleOf, vis |-> << >>, bundles |-> << >>, dangling |-> << >>]
TPost(s, ev) == IF ev.op \in {"query", "manifest"} THEN s ELSE [s EXCEPT !.vis = ev.vis, !.bundles = ev.bundles, !.dangling = ev.dangling]

INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
