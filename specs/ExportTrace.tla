----------------------------- MODULE ExportTrace -----------------------------
(* Exports of patches: what each one leaves in its directory, and elsewhere. *)
(* state: [C, srcs: version text -> [v, srcs], trees, views, outside]        *)
EXTENDS Export, TLC

None(d, f) == IF d \in DOMAIN f THEN f[d] ELSE << >>
Tree(s, d) == IF d \in DOMAIN s.trees THEN s.trees[d] ELSE [x \in {} |-> 0]
ExpectedOf(s, d) == Expected(s.C, s.srcs[d].v, s.srcs[d].srcs)

(* previous export complete, as assumed by links                             *)
Complete(s, d) == d \in DOMAIN s.srcs /\ d \in DOMAIN s.views /\ Shows(s.views[d], ExpectedOf(s, d))

(* outputs a lazy export does not touch: those of files whose outputs are all there *)
There(T, p, dirs) == IF p \in dirs THEN \E q \in DOMAIN T : Under(q, p) /\ (q # p \/ T[q].k \in {"f", "d"}) ELSE p \in DOMAIN T /\ T[p].k = "f"
Skipped(s, d, T) == {f \in PatchFiles(s.srcs[d].v, s.srcs[d].srcs) : \A o \in Outputs(f.p) : There(T, o, DirOutputs(f.p))}

(* same files, and same links wherever they lead *)
SameNodes(T, W) == DOMAIN T = DOMAIN W /\ \A p \in DOMAIN T : T[p].k = W[p].k /\ T[p].raw = W[p].raw

OldList(s, d, n) == IF d \in DOMAIN s.cds /\ n \in DOMAIN s.cds[d].lists THEN s.cds[d].lists[n].lines ELSE <<"(none)">>

(* names that the file system refuses are listed, as they are with exported files *)
Listable(lines, planned) == {p \in lines : Len(p) > 255 /\ ~Writable(p) /\ \E o \in planned : Under(o, p)}

ExportFails(s, ev) ==
    LET d == ev.patch
        E == ExpectedOf(s, d)
        T0 == Tree(s, d)
        T1 == ev.trees[d]
        V1 == ev.views[d]
        planned == Planned(s.srcs[d].v, s.srcs[d].srcs)
        kept == IF ev.lazy THEN Skipped(s, d, T0) ELSE {}
        keptPaths == UNION {{x.p : x \in Files(f.p, s.C[f.c])} \cup {q \in DOMAIN T0 : \E o \in Outputs(f.p) : Under(q, o)} : f \in kept}
        W == {x \in E : x.p \notin keptPaths}       (* files which have to be written (or linked) *)
        ok == ev.status = "ok"
        others == (DOMAIN s.trees \cup DOMAIN ev.trees) \ {d}
        prevOk == ev.prev # "" /\ Complete(s, ev.prev)
        EP == IF ev.prev # "" THEN ExpectedOf(s, ev.prev) ELSE {}
        changed == IF ev.prev = "" THEN E ELSE E \ EP
        L == ev.cdragon.lists
    IN
    {x \in {"status", "content", "extra", "outside", "others", "view", "regular", "self-link", "full-links", "kept", "partial", "partial-list",
            "exported", "unknown", "links", "reload", "diff-content", "diff-extra", "place", "dirs"} :
       \/ x = "status" /\ ~ok /\ ~ev.faulted
       \* a full export holds exactly the files of the patch
       \/ x = "content" /\ ok /\ ev.mode = "full" /\ \E f \in W : ~Holds(T1, f)
       \/ x = "extra" /\ ok /\ ev.mode = "full" /\ \E p \in FilesIn(T1) : p \notin {f.p : f \in E} /\ p \notin keptPaths
       \/ x = "place" /\ ok /\ ev.mode = "full" /\ ~ev.lazy /\ FilesIn(T1) # {f.p : f \in E}
       \* directories emptied by the clean-up are removed (those of a file which could not be written may remain)
       \/ x = "dirs" /\ ok /\ \E p \in DOMAIN T1 : T1[p].k = "d" /\ ~(p \in DOMAIN T0 /\ T0[p].k = "d") /\ ~\E o \in planned : Under(p, o) \/ Under(o, p)
       \/ x = "full-links" /\ ok /\ ev.mode # "links" /\ LinksIn(T1) # {}
       \/ x = "outside" /\ ev.outside # s.outside
       \/ x = "others" /\ \E o \in others : ~SameNodes(Tree(ev, o), Tree(s, o))
       \* links to the previous patch are equivalent to its files
       \/ x = "view" /\ ok /\ ev.mode = "links" /\ prevOk /\ kept = {} /\ ~Shows(V1, E)
       \/ x = "regular" /\ ok /\ ev.mode = "links" /\ prevOk /\ kept = {} /\ \E f \in changed : ~Holds(T1, f)
       \/ x = "self-link" /\ ok /\ kept = {} /\ \E p \in LinksIn(T1) : T1[p].to[1] = d
       \* only changes are exported
       \/ x = "diff-content" /\ ok /\ ev.mode = "diff" /\ \E f \in changed \cap W : ~Holds(T1, f)
       \/ x = "diff-extra" /\ ok /\ ev.mode = "diff"
            /\ \E p \in FilesIn(T1) : ~\E o \in planned : Under(p, o)
       \* files left alone by lazy exports
       \/ x = "kept" /\ ev.lazy /\ ev.mode = "full" /\ \E p \in keptPaths \cap DOMAIN T0 : p \notin DOMAIN T1 \/ T1[p] # T0[p]
       \* whatever happens, a file is complete or was there before
       \/ x = "partial" /\ ~ok /\ \E p \in FilesIn(T1) : T1[p].k # "l" /\ ~(p \in DOMAIN T0 /\ T0[p] = T1[p]) /\ ~\E f \in E : f.p = p /\ TokOf(T1[p], f) = f.t
       \* lists: complete, or those of before
       \/ x = "partial-list" /\ ~ok /\ \E n \in DOMAIN L : ~(OldList(s, d, n) = L[n].lines /\ L[n].whole)
                                                          /\ ~(L[n].whole /\ RangeOf(L[n].lines) = CASE n = "exported" -> planned [] n = "unknown" -> Unknown(s.srcs[d].srcs) [] OTHER -> Listable(RangeOf(L[n].lines), planned) \cup LinksIn(T1))
       \/ x = "exported" /\ ok /\ ~("exported" \in DOMAIN L /\ L["exported"].whole /\ L["exported"].sorted /\ L["exported"].once
                                     /\ RangeOf(L["exported"].lines) = planned)
       \/ x = "unknown" /\ ok /\ ~("unknown" \in DOMAIN L /\ L["unknown"].whole /\ L["unknown"].sorted /\ RangeOf(L["unknown"].lines) = Unknown(s.srcs[d].srcs))
       \/ x = "links" /\ ok /\ IF LinksIn(T1) = {} THEN "links" \in DOMAIN L /\ RangeOf(L["links"].lines) # Listable(RangeOf(L["links"].lines), planned)
                               ELSE ~("links" \in DOMAIN L /\ L["links"].whole /\ RangeOf(L["links"].lines) = Listable(RangeOf(L["links"].lines), planned) \cup LinksIn(T1))
       \/ x = "reload" /\ ok /\ RangeOf(ev.reload) # Unknown(s.srcs[d].srcs) }

AllFails(s, ev) ==
    CASE ev.op = "export" -> ExportFails(s, ev)
      [] ev.op \in {"disturb", "record"} -> {}
      [] OTHER -> {"unknown-event"}
XInit(case) == [C |-> case.contents, srcs |-> case.srcs, trees |-> case.trees, views |-> case.views, cds |-> case.cds, outside |-> case.outside]
XPost(s, ev) ==
    IF ev.op = "record" THEN [s EXCEPT !.srcs = ev.srcs]
    ELSE [s EXCEPT !.trees = ev.trees, !.views = ev.views, !.cds = ev.cds, !.outside = ev.outside]
=============================================================================
