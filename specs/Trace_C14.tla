----------------------------- MODULE Trace_C14 -----------------------------
(* Extractions and listings of an archive. case: es (entries, see WadNames), *)
(* out (output directory); ev.tree: path -> content token                    *)
EXTENDS WadNames, TLC
VARIABLES c, l, st

Path(s, e) == s.out \o "/" \o FullName(e)
Names(s, S) == {Path(s, e) : e \in S}
TokOf(s, S, p) == (CHOOSE e \in S : Path(s, e) = p).tok

(* files of the tree which are the extraction of an over-long entry          *)
Candidates(s, e, tree) == {p \in DOMAIN tree : tree[p] = e.tok /\ Short(Path(s, e), p)}

ExtractFails(s, ev) ==
    LET old == s.tree new == ev.tree
        plain == Plain(s.es, ev.sel) lengthy == Lengthy(s.es, ev.sel)
        named == Names(s, plain)
        kept == {p \in DOMAIN old : ev.lazy \/ (p \notin named /\ ~\E e \in lengthy : p \in Candidates(s, e, old))}
        written == {p \in named : ~(ev.lazy /\ p \in DOMAIN old)}
        extra == DOMAIN new \ (DOMAIN old \cup named)
        ok == ev.status = "ok"
    IN {x \in {"status", "kept", "content", "missing", "extra", "long-name", "partial"} :
          \/ x = "status" /\ ~ok /\ ~ev.faulted
          \/ x = "kept" /\ \E p \in kept : p \notin DOMAIN new \/ new[p] # old[p]
          \/ x = "content" /\ ok /\ \E p \in written \cap DOMAIN new : new[p] # TokOf(s, plain, p)
          \/ x = "partial" /\ ~ok /\ \E p \in written \cap DOMAIN new : new[p] \notin {TokOf(s, plain, p)} \cup (IF p \in DOMAIN old THEN {old[p]} ELSE {})
          \/ x = "missing" /\ ok /\ ~(written \subseteq DOMAIN new)
          \/ x = "extra" /\ \E p \in extra : ~\E e \in lengthy : p \in Candidates(s, e, new)
          \/ x = "long-name" /\ ok /\ \E e \in lengthy : Cardinality(Candidates(s, e, new)) # 1}

ListFails(s, ev) ==
    IF ev.status # "ok" THEN {"status"}
    ELSE LET known == {e \in RangeOf(s.es) : e.path # ""}
             want == {e.h \o " " \o e.path : e \in known}
             unknown == {e.h : e \in RangeOf(s.es) \ known}
             isUnknown(t) == SubSeq(t, 1, 16) \in unknown /\ StartsWith(From(t, 17), " ?")
         IN IF /\ Len(ev.out) = Len(s.es) /\ want \subseteq RangeOf(ev.out)
               /\ \A t \in RangeOf(ev.out) \ want : isUnknown(t)
               /\ Cardinality(RangeOf(ev.out)) = Len(s.es)
            THEN {} ELSE {"listing"}

TFails(s, ev) == CASE ev.op = "extract" -> ExtractFails(s, ev) [] ev.op = "list" -> ListFails(s, ev) [] ev.op = "disturb" -> {} [] OTHER -> {"unknown-event"}
TInit(case) == [es |-> case.es, out |-> case.out, tree |-> case.tree]
TPost(s, ev) == IF ev.op = "list" THEN s ELSE [s EXCEPT !.tree = ev.tree]
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
