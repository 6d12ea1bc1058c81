------------------------------ MODULE Trace_C25 ------------------------------
(* Methods run by real guessers: promised paths whose hashes were wanted are *)
(* known afterwards.                                                         *)
EXTENDS Variants
VARIABLES c, l, st

If(b, name) == IF b THEN {name} ELSE {}
Args(a) == [words |-> SeqSet(a.words), names |-> SeqSet(a.names), chars |-> SeqSet(a.chars), prefixes |-> SeqSet(a.prefixes), others |-> SeqSet(a.others),
            without |-> SeqSet(a.without), groups |-> SeqSet(a.groups), plugin |-> a.plugin, ext |-> a.ext, nold |-> a.nold, nnew |-> a.nnew, nmax |-> a.nmax, digits |-> a.digits]
Missed(ev) == {i \in 1..Len(ev.targets) : ~ev.targets[i].found}

FGuess(ev) ==
    LET known == SeqSet(ev.known)
        whole == ev.interrupts # 2      \* a second interrupt in a row stops the method
    IN If(whole /\ ev.status # "ok", "error") \cup If(~whole /\ ev.status # "interrupted", "interrupt") \cup If(~ev.kept, "kept") \cup If(~ev.handler, "handler")
       \cup UNION {If(whole /\ \E i \in Missed(ev) : Promised(ev.ms[k].m, Args(ev.ms[k].a), known, ev.targets[i].t), ev.ms[k].m) : k \in 1..Len(ev.ms)}

(* mentions of a scanned file *)
Mentioned(kind, file, m, dirs) == IF kind = "lcu" THEN GrepLcu(m.form, m.x, m.y, dirs) ELSE GrepGame(m.form, m.x, file)
FGrep(ev) ==
    LET dirs == Dirs(SeqSet(ev.known))
        all == UNION {UNION {Mentioned(ev.kind, ev.files[f].path, ev.files[f].mentions[k], dirs) : k \in 1..Len(ev.files[f].mentions)} : f \in 1..Len(ev.files)}
    IN If(ev.status # "ok", "error") \cup If(\E i \in Missed(ev) : ev.targets[i].t \in all, "grep")

TFails(s, ev) ==
    CASE ev.op = "guess" -> FGuess(ev)
      [] ev.op = "grep" -> FGrep(ev)
      [] OTHER -> {"observation"}
TPost(s, ev) == s
TInit(case) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
