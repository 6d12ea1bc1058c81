----------------------------- MODULE Trace_C30 -----------------------------
EXTENDS Conf
VARIABLES c, l, st
(* by: "api" | "cli" | "env" | "default"                                     *)
Expected(s, ev) == IF ev.by = "default" THEN WithPatchline(Patcher(Append(s.cwd, "cdn"), "live", TRUE, ""), ev.opt)
                   ELSE WithPatchline(Lookup(s.fs, s.cwd, ev.input), ev.opt)
TFails(s, ev) ==
    IF ev.op # "open" THEN {"unknown-event"}
    ELSE LET e == Expected(s, ev) IN
         IF ~e.ok THEN (IF ev.status = "ok" THEN {"not-refused"} ELSE {})
         ELSE IF ev.status # "ok" THEN {"refused"}
         ELSE {x \in {"type", "path", "patchline", "symlinks", "clientconfig", "url"} :
                 \/ x = "type" /\ ev.out.type # e.type
                 \/ x = "path" /\ ev.out.path # e.path
                 \/ x = "patchline" /\ ev.out.patchline # e.patchline
                 \/ x = "symlinks" /\ ev.out.symlinks # e.symlinks
                 \/ x = "clientconfig" /\ ev.out.ccd # e.ccd
                 \/ x = "url" /\ ev.out.url # e.url}
TInit(case) == [fs |-> case.fs, cwd |-> case.cwd]
TPost(s, ev) == s
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
