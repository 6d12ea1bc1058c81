----------------------------- MODULE Trace_C19 -----------------------------
EXTENDS ExportTrace
VARIABLES c, l, st
Clauses == {"status", "content", "extra", "view", "partial", "partial-list", "exported", "diff-content", "diff-extra", "outside", "others", "unknown-event"}
TFails(s, ev) == AllFails(s, ev) \cap Clauses
INSTANCE TraceRun WITH InitSt <- XInit, Fails <- TFails, Post <- XPost
=============================================================================
