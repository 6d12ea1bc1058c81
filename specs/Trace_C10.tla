----------------------------- MODULE Trace_C10 -----------------------------
(* Extractions of RADS project versions. case.files: path -> [pkg, off, size] *)
(* ev.want: requested paths; ev.avail: package -> bytes the server delivers   *)
(* ev.before/after: path -> "right" | "wrong" (content compared to the file)  *)
(* ev.kept: paths whose content and inode have not changed                    *)
EXTENDS Stream
VARIABLES c, l, st

Needed(s, ev) == {p \in RangeOf(ev.want) : p \notin DOMAIN ev.before}
Pkgs(s, ev) == {s.files[p].pkg : p \in Needed(s, ev)}
RangesIn(s, ev, k) == {[off |-> s.files[p].off, size |-> s.files[p].size, path |-> p] : p \in {p \in Needed(s, ev) : s.files[p].pkg = k}}
Whole(s, ev, k) == k \notin DOMAIN ev.avail \/ (ev.avail[k] >= 0 /\ Outcome(RangesIn(s, ev, k), ev.avail[k]).ok)
Expected(s, ev) == \A k \in Pkgs(s, ev) : Whole(s, ev, k)

TFails(s, ev) ==
    LET new == DOMAIN ev.after \ DOMAIN ev.before
        ok == ev.status = "ok"
    IN {x \in {"status", "changed", "missing", "partial", "extra", "package-unneeded", "package-twice", "package-missing", "odd-files"} :
          \/ x = "status" /\ ok # Expected(s, ev)
          \/ x = "changed" /\ ~(DOMAIN ev.before \subseteq RangeOf(ev.kept))
          \/ x = "missing" /\ ok /\ ~(Needed(s, ev) \subseteq DOMAIN ev.after)
          \/ x = "partial" /\ \E p \in new : ev.after[p] # "right"
          \/ x = "extra" /\ ~(new \subseteq Needed(s, ev))
          \/ x = "package-unneeded" /\ ~(RangeOf(ev.requested) \subseteq Pkgs(s, ev))
          \/ x = "package-twice" /\ Len(ev.requested) # Cardinality(RangeOf(ev.requested))
          \/ x = "package-missing" /\ ok /\ RangeOf(ev.requested) # Pkgs(s, ev)
          \/ x = "odd-files" /\ ev.odd # << >>}

TInit(case) == [files |-> case.files]
TPost(s, ev) == s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
