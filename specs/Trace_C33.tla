------------------------------ MODULE Trace_C33 ------------------------------
(* Commands run one after the other. An event gives the command (or what the *)
(* user did), its status, if it printed something, and the state afterwards. *)
EXTENDS Cli
VARIABLES c, l, st

State(e) == [files |-> [p \in {e.files[i][1] : i \in 1..Len(e.files)} |-> e.files[CHOOSE i \in 1..Len(e.files) : e.files[i][1] = p][2]],
             dirs |-> {e.dirs[i] : i \in 1..Len(e.dirs)},
             known |-> [lcu |-> RangeOf(e.lcu), game |-> RangeOf(e.game)], got |-> RangeOf(e.got)]
World(w) == [wads |-> w.wads, skns |-> w.skns, lists |-> [i \in DOMAIN w.lists |-> RangeOf(w.lists[i])],
             comps |-> [x \in {w.comps[i][1] : i \in 1..Len(w.comps)} |-> RangeOf(w.comps[CHOOSE i \in 1..Len(w.comps) : w.comps[i][1] = x][2])],
             elems |-> w.elems]
Changed(s, t) ==
    (IF t.files = s.files /\ t.dirs = s.dirs THEN {} ELSE {"files"}) \cup (IF t.known = s.known THEN {} ELSE {"hashes"}) \cup (IF t.got = s.got THEN {} ELSE {"storage"})
TInit(case) == [w |-> World(case.world), s |-> State(case.start)]
TFails(x, ev) ==
    IF ev.op = "user" THEN {}
    ELSE LET s == x.s w == x.w t == State(ev.after) o == ev.c p == Problems(s, w, o) IN
         IF p # {} /\ ev.status = "ok" THEN (IF Harmless(s, w, o) /\ Changed(s, t) = {} THEN {} ELSE {"accepted"})
         ELSE IF p # {}
         THEN (IF Changed(s, t) = {} \/ (o.cmd = "export" /\ p = {"output"} /\ Changed(s, t) = {"storage"}) THEN {} ELSE {"changed-although-refused"})
              \cup (IF ev.printed THEN {"printed-although-refused"} ELSE {})
         ELSE IF ev.status # "ok" THEN {"refused"}
         ELSE LET e == Effect(s, w, o) IN
              (IF SameTree(e, s, t) THEN {} ELSE {"files"}) \cup (IF t.known = e.known THEN {} ELSE {"hashes"}) \cup (IF t.got = e.got THEN {} ELSE {"storage"})
              \cup (IF Prints(s, w, o) = "yes" => ev.printed THEN {} ELSE {"nothing-printed"})
              \cup (IF Prints(s, w, o) = "no" => ~ev.printed THEN {} ELSE {"printed"})
TPost(x, ev) == [x EXCEPT !.s = State(ev.after)]
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
