------------------------------ MODULE Trace_C31 ------------------------------
(* Textures and images exported as PNG files. An event is a file of a patch  *)
(* with the PNG found at its place once exported (have: no, yes, other: not  *)
(* a PNG file)                                                               *)
EXTENDS Tex
VARIABLES c, l, st

FFile(ev) ==
    LET d == File(ev.kind, ev.bytes)
    IN IF ev.have = "other" THEN {"not-png"}
       ELSE IF d.what = "none" THEN IF ev.have = "yes" THEN {"accepted"} ELSE {}
       ELSE IF d.what = "free" THEN {}
       ELSE IF ev.have = "no" THEN {"missing"}
       ELSE IF ev.w # d.w \/ ev.h # d.h \/ Len(ev.px) # 4 * d.w * d.h THEN {"size"}
       ELSE IF Same(ev.bytes, d, ev.px) THEN {} ELSE {"pixels"}
TFails(s, ev) ==
    CASE ev.op = "file" -> FFile(ev)
      [] ev.op = "export" -> (IF ev.status = "ok" THEN {} ELSE {"failed"}) \cup (IF ev.extra = << >> THEN {} ELSE {"extra"})
      [] OTHER -> {"observation"}
TPost(s, ev) == s
TInit(case) == 0
INSTANCE TraceRun WITH InitSt <- TInit, Fails <- TFails, Post <- TPost
=============================================================================
