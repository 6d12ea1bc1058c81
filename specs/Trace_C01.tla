----------------------------- MODULE Trace_C01 -----------------------------
EXTENDS Versions, TLC
VARIABLES c, l, st

(* a.v, b.v are the stored values that Versions.Stored requires *)
CmpFails(ev) ==
    LET a == Stored(ev.a.cls, ev.a.v)
        b == Stored(ev.b.cls, ev.b.v)
        lt == VLess(a, b)
        gt == VLess(b, a)
        eq == a = b
        names == {"lt", "le", "gt", "ge", "eq", "ne"}
        want == [lt |-> lt, le |-> lt \/ eq, gt |-> gt, ge |-> gt \/ eq, eq |-> eq, ne |-> ~eq]
    IN {"cmp-" \o n : n \in {n \in names : ev.r[n] /= (IF want[n] THEN "T" ELSE "F")}}
       \cup (IF eq /\ ~ev.hasheq THEN {"hash"} ELSE {})
       \cup (IF eq /\ ~ev.texteq THEN {"text"} ELSE {})

MakeFails(ev) ==
    IF ~Acceptable(ev.cls, ev.v) THEN
        IF ev.status = "ok" THEN {"accepted-bad"} ELSE {}
    ELSE IF ev.status /= "ok" THEN {"refused-good"}
    ELSE LET s == Stored(ev.cls, ev.v) IN
        {x \in {"text", "tuple", "eq-own-text", "eq-own-tuple", "hash-of-text"} :
            \/ x = "text" /\ ev.s /= Text(s)
            \/ x = "tuple" /\ ev.t /= s
            \/ x = "eq-own-text" /\ ~ev.eqtext
            \/ x = "eq-own-tuple" /\ ~ev.eqtuple
            \/ x = "hash-of-text" /\ ~ev.hashtext}

MainFails(ev) ==
    {x \in {"main-eq"} : ev.eq /= (IF ev.other = "main" THEN "T" ELSE "F") \/ ev.ne /= (IF ev.other = "main" THEN "F" ELSE "T")}
    \cup (IF ev.s /= "main" THEN {"main-text"} ELSE {})

SortFails(ev) ==
    (IF SameItems(ev.items, ev.out) THEN {} ELSE {"sort-lost"})
    \cup (IF IsSorted(ev.out, NewestFirst) THEN {} ELSE {"sort-order"})

(* what makes two values of a kind equal *)
Key(x) == CASE x.what = "patch" -> <<x.what, "", Text(Stored("patch", x.v))>>
            [] x.what = "element" -> <<x.what, ToString(x.name), Text(Stored("patch", x.v))>>
            [] x.what \in {"s", "p"} -> <<x.what, ToString(x.name), "">>
            [] OTHER -> <<x.what, ToString(x.name), Text(x.v)>>
SameFails(ev) ==
    LET k == [i \in 1..Len(ev.items) |-> Key(ev.items[i])]
    IN (IF \A i, j \in 1..Len(k) : ev.rel[i][j] = (IF k[i] = k[j] THEN "same" ELSE "different") THEN {} ELSE {"same"})
       \cup (IF ev.foreign = <<"different">> THEN {} ELSE {"same-foreign"})
       \cup (IF ev.count = Cardinality({k[i] : i \in 1..Len(k)}) THEN {} ELSE {"same-count"})

TFails(s, ev) ==
    CASE ev.op = "make" -> MakeFails(ev)
      [] ev.op = "cmp"  -> CmpFails(ev)
      [] ev.op = "main" -> MainFails(ev)
      [] ev.op = "sort" -> SortFails(ev)
      [] ev.op = "same" -> SameFails(ev)
      [] OTHER -> {"unknown-event"}
TInit(case) == 0
TPost(s, ev) == 0

INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
