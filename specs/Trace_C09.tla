----------------------------- MODULE Trace_C09 -----------------------------
EXTENDS Manifest
VARIABLES c, l, st

FileFails(m, out) ==
    LET want == DecodedFiles(m)
        got == RangeOf(out)
    IN IF got = want /\ Len(out) = Cardinality(want) THEN {}
       ELSE {"files"}
        \cup (IF {f.path : f \in got} /= {f.path : f \in want} THEN {"file-paths"} ELSE {})
        \cup {"file-" \o x : x \in {x \in {"size", "link", "flags", "chunks"} :
                \E f \in want, g \in got : f.path = g.path /\ f[x] /= g[x]}}

DecodeFails(ev) ==
    IF ev.status /= "ok" THEN {"refused-good"}
    ELSE FileFails(ev.m, ev.files)
      \cup (IF ev.names_match THEN {} ELSE {"file-key"})
      \cup (IF ev.bundles /= [b \in 1..Len(ev.m.bundles) |->
                [id |-> ev.m.bundles[b].id, chunks |-> [k \in 1..Len(ev.m.bundles[b].chunks) |-> ChunkOf(ChunkTable(ev.m), ev.m.bundles[b].chunks[k].id)]]]
            THEN {"bundles"} ELSE {})
      \cup (IF RangeOf(ev.chunks) /= ChunkTable(ev.m) THEN {"chunks"} ELSE {})
      \cup (IF RangeOf(ev.flags) /= RangeOf(ev.m.flags) THEN {"flags"} ELSE {})

(* magic and version decide acceptance *)
HeaderFails(ev) ==
    LET good == ev.magic = "RMAN" /\ ev.major = 2 /\ ev.minor \in {0, 1}
    IN IF good /\ ev.status /= "ok" THEN {"refused-good"}
       ELSE IF ~good /\ ev.status = "ok" THEN {"accepted-bad"} ELSE {}

TFails(s, ev) ==
    CASE ev.op = "decode" -> DecodeFails(ev)
      [] ev.op = "header" -> HeaderFails(ev)
      [] OTHER -> {"unknown-event"}
TInit(case) == 0
TPost(s, ev) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
