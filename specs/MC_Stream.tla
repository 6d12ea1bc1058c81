----------------------------- MODULE MC_Stream -----------------------------
(* The streaming reader (buffer, position, blocks of any size, stream cut at *)
(* any point) reading disjoint ranges in offset order, against Outcome, for  *)
(* all packages of up to Total bytes.                                        *)
EXTENDS Stream, TLC, Json
CONSTANTS Total, MaxFiles, Emit
VARIABLES ph, ranges, cut, todo, pos, buf, got, cur, need, skipping, out, status, blocks
vars == <<ph, ranges, cut, todo, pos, buf, got, cur, need, skipping, out, status, blocks>>
(* got: bytes received; buf: number of bytes buffered; byte i of the package *)
(* is in the buffer if got - buf < i <= got                                  *)
Init == /\ ph = "layout" /\ ranges = << >> /\ cut = Total /\ todo = {} /\ pos = 0 /\ buf = 0 /\ got = 0
        /\ cur = [off |-> 0, size |-> 0] /\ need = 0 /\ skipping = TRUE /\ out = << >> /\ status = "" /\ blocks = << >>
Free == IF ranges = << >> THEN 0 ELSE Last(ranges[Len(ranges)])
(* ranges in layout order: disjoint, possibly empty                          *)
Layout == /\ ph = "layout"
          /\ \/ /\ Len(ranges) < MaxFiles
                /\ \E o \in Free..Total : \E z \in 0..(Total - o) : ranges' = Append(ranges, [off |-> o, size |-> z])
                /\ UNCHANGED <<ph, cut, todo>>
             \/ /\ ph' = "next" /\ cut' \in 0..Total /\ todo' = 1..Len(ranges) /\ UNCHANGED ranges
          /\ UNCHANGED <<pos, buf, got, cur, need, skipping, out, status, blocks>>
Smaller(i, j) == ranges[i].off < ranges[j].off \/ (ranges[i].off = ranges[j].off /\ (ranges[i].size < ranges[j].size \/ (ranges[i].size = ranges[j].size /\ i <= j)))
NextFile == /\ ph = "next"
            /\ IF todo = {} THEN ph' = "done" /\ status' = "ok" /\ UNCHANGED <<todo, cur, need, skipping, pos, out>>
               ELSE LET i == CHOOSE i \in todo : \A j \in todo : Smaller(i, j) IN
                      /\ Assert(pos <= ranges[i].off, "backwards")
                      /\ todo' = todo \ {i} /\ cur' = ranges[i] /\ skipping' = TRUE /\ need' = ranges[i].off - pos
                      /\ pos' = ranges[i].off /\ ph' = "copy" /\ out' = Append(out, [r |-> ranges[i], bytes |-> {}]) /\ UNCHANGED status
            /\ UNCHANGED <<ranges, cut, buf, got, blocks>>
Bytes(n) == {got - buf + k : k \in 1..n}
Write(n) == IF skipping THEN out ELSE [out EXCEPT ![Len(out)].bytes = @ \cup Bytes(n)]
Copy == /\ ph = "copy"
        /\ IF need <= buf
           THEN /\ out' = Write(need) /\ buf' = buf - need
                /\ IF skipping THEN skipping' = FALSE /\ need' = cur.size /\ pos' = pos + cur.size /\ UNCHANGED ph
                   ELSE need' = 0 /\ ph' = "next" /\ UNCHANGED <<skipping, pos>>
                /\ UNCHANGED <<got, status, blocks>>
           ELSE IF got = cut
           THEN ph' = "done" /\ status' = "error" /\ out' = SubSeq(out, 1, Len(out) - 1)
                /\ UNCHANGED <<need, buf, got, skipping, pos, blocks>>
           ELSE /\ \E b \in 1..(cut - got) : got' = got + b /\ buf' = b /\ blocks' = Append(blocks, b)
                /\ out' = Write(buf) /\ need' = need - buf /\ UNCHANGED <<ph, status, skipping, pos>>
        /\ UNCHANGED <<ranges, cut, todo, cur>>
Next == Layout \/ NextFile \/ Copy
Spec == Init /\ [][Next]_vars /\ WF_vars(NextFile \/ Copy \/ (Layout /\ ph' = "next"))

Exact == ph = "done" =>
    /\ \A i \in 1..Len(out) : out[i].bytes = {out[i].r.off + k : k \in 1..out[i].r.size}
    /\ {out[i].r : i \in 1..Len(out)} = Outcome(RangeOf(ranges), cut).files
    /\ (status = "ok") = Outcome(RangeOf(ranges), cut).ok
EmitCase == (Emit /\ ph = "done") => PrintT("SCENARIO " \o ToJson([ranges |-> ranges, cut |-> cut, total |-> Total, blocks |-> blocks]))
=============================================================================
