----------------------------- MODULE Trace_C32 -----------------------------
(* Queries and downloads on a RADS storage. case: world (see RadsStore)      *)
(* where: file -> <<kind, name, version>>                                    *)
EXTENDS RadsStore, TLC
VARIABLES c, l, st

Clause(name, ok) == IF ok THEN {} ELSE {name}
VersionsFails(s, ev) ==
    LET all == IF ev.what = "p" THEN ProjectVersions(s.w, ev.name) ELSE SolutionVersions(s.w, ev.name)
        have == {x[2] : x \in {x \in Stored(s.w, ev.what, s.have) : x[1] = ev.name}}
        want == IF ev.stored THEN have ELSE all
    IN IF ev.missing \/ (~ev.stored /\ all = {}) THEN Clause("accepted", ev.status # "ok")
       ELSE IF ev.status # "ok" THEN {"failed"}
       ELSE Clause("versions", RangeOf(ev.out) = want /\ Len(ev.out) = Cardinality(want))
            \cup Clause("order", ev.what = "p" \/ NewestFirst(ev.out))
            \cup Clause("stored-requests", ~ev.stored \/ ev.fetched = << >>)
ListFails(s, ev) ==
    LET want == StoredNames(s.w, ev.what, s.have)
    IN IF want = {} THEN Clause("list", ev.status # "ok" \/ ev.out = << >>)
       ELSE IF ev.status # "ok" THEN {"failed"}
       ELSE Clause("list", RangeOf(ev.out) = want /\ Len(ev.out) = Cardinality(want)) \cup Clause("list-requests", ev.fetched = << >>)
(* patches by component: see C03 *)
Resolved(s, d) ==
    LET vs == IF d.what = "p" THEN ProjectVersions(s.w, d.name) ELSE SolutionVersions(s.w, d.name)
    IN IF d.version = "?" THEN (IF vs = {} THEN Refused ELSE [d EXCEPT !.version = Newest(vs)]) ELSE d
Out(ev) == [what |-> ev.out.what, name |-> ev.out.name, version |-> ev.out.version]
ParseFails(s, ev) ==
    LET d == Component(ev.text)
        r == Resolved(s, d)
    IN IF d.what = "patch" \/ d.version = "main" THEN {}
       ELSE IF r.what = "refused" THEN Clause("accepted-component", ev.status # "ok")
       ELSE IF ev.status # "ok" THEN {"refused-component"}
       ELSE Clause("component", Out(ev) = r)
            \cup Clause("component-requests", d.version = "?" \/ ev.fetched = << >>)
            \cup Clause("same", \A i \in 1..Len(s.objs) : ev.same[i] = (IF s.objs[i] = r THEN "same" ELSE "different"))
DownloadFails(s, ev) ==
    LET new == Download(s.w, s.have, ev.what, ev.name, ev.version, ev.sel)
        urls == Requested(s.w, s.have, ev.what, ev.name, ev.version, ev.sel)
        got == RangeOf(ev.have)
    IN Clause("lost", s.have \subseteq got)
       \cup Clause("extra", got \subseteq new)
       \cup Clause("content", ev.wrong = << >>)
       \cup Clause("requests", RangeOf(ev.fetched) \subseteq urls /\ Len(ev.fetched) = Cardinality(RangeOf(ev.fetched)))
       \cup (IF ev.status = "ok" THEN Clause("incomplete", new \subseteq got)
             ELSE Clause("failed", RangeOf(ev.missing) \cap urls # {} \/ ev.listing))
TFails(s, ev) ==
    CASE ev.op = "versions" -> VersionsFails(s, ev)
      [] ev.op = "list" -> ListFails(s, ev)
      [] ev.op = "parse" -> ParseFails(s, ev)
      [] ev.op = "download" -> DownloadFails(s, ev)
      [] OTHER -> {"unknown-event"}
TInit(case) == [w |-> case.world, have |-> {}, objs |-> << >>]
TPost(s, ev) == IF ev.op = "parse" /\ ev.status = "ok" THEN [s EXCEPT !.objs = Append(@, Out(ev))]
                ELSE IF ev.op = "download" THEN [s EXCEPT !.have = RangeOf(ev.have)] ELSE s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
