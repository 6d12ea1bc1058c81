------------------------------ MODULE Trace_C23 ------------------------------
(* Guessers used on real archives and lists. The state is the guesser.       *)
EXTENDS Guess
VARIABLES c, l, st

SeqSet(s) == {s[i] : i \in 1..Len(s)}
If(b, name) == IF b THEN {name} ELSE {}
Known(ev) == SeqSet(ev.known)
Unknown(ev) == SeqSet(ev.unknown)
Added(s, ev) == Known(ev) \ s.known

(* whatever is tried *)
Safe(s, ev) ==
    If(~(s.known \subseteq Known(ev)), "entry-lost-or-changed")
    \cup If(~Functional(Known(ev)), "two-paths")
    \cup If(SeqSet(ev.wrong) # {}, "path-of-another-hash")
    \cup If(~({e.h : e \in Added(s, ev)} \subseteq s.unknown), "not-wanted")
    \cup If(Unknown(ev) # s.unknown \ {e.h : e \in Added(s, ev)}, "unknown-hashes")
    \cup If(SeqSet(ev.printed) # Added(s, ev) \/ Len(ev.printed) # Cardinality(Added(s, ev)), "printed")

FTry(s, ev) ==
    LET g == TryAll([known |-> s.known, unknown |-> s.unknown], ev.cands)
    IN Safe(s, ev) \cup If(Known(ev) # g.known, "tried") \cup If(ev.status # ev.expect, "status")
       \cup If(\E i \in 1..Len(ev.ret) : ev.ret[i] # IsKnown([known |-> s.known, unknown |-> s.unknown], ev.cands[i]), "is-known")

FMethod(s, ev) == Safe(s, ev) \cup If(ev.status # "ok", "error")

FStart(s, ev) ==
    LET g == Started(SeqSet(ev.list), HashesOf(ev.kind, ev.archives))
    IN If(ev.status # "ok", "error") \cup If(ev.status = "ok" /\ Known(ev) # g.known, "known-at-start") \cup If(ev.status = "ok" /\ Unknown(ev) # g.unknown, "unknown-at-start")

FSave(s, ev) == If(ev.status # "ok", "error") \cup If(SeqSet(ev.file) # s.known, "saved")

(* whole command, for a kind of list *)
FCommand(ev) ==
    LET before == SeqSet(ev.list)  after == SeqSet(ev.file)  new == after \ before
        wanted == Started(before, HashesOf(ev.kind, ev.archives)).unknown
    IN If(ev.status # "ok", "error")
       \cup If(~(before \subseteq after), "entry-lost-or-changed")
       \cup If(~Functional(after), "two-paths")
       \cup If(SeqSet(ev.wrong) # {}, "path-of-another-hash")
       \cup If(~({e.h : e \in new} \subseteq wanted), "not-wanted")
       \cup If(ev.dry /\ new # {}, "saved-by-dry-run")
       \cup If(~ev.dry /\ SeqSet(ev.printed) # new, "printed")
       \cup If(ev.dry /\ ~({e.h : e \in SeqSet(ev.printed)} \subseteq wanted), "printed")

TFails(s, ev) ==
    CASE ev.op = "try" -> FTry(s, ev)
      [] ev.op = "method" -> FMethod(s, ev)
      [] ev.op = "start" -> FStart(s, ev)
      [] ev.op = "save" -> FSave(s, ev)
      [] ev.op = "command" -> FCommand(ev)
      [] OTHER -> {"observation"}
TPost(s, ev) == IF ev.op \in {"try", "method", "start"} THEN [known |-> Known(ev), unknown |-> Unknown(ev)] ELSE s
TInit(case) == [known |-> {}, unknown |-> {}]
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
