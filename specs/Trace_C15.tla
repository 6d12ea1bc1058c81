----------------------------- MODULE Trace_C15 -----------------------------
EXTENDS ExportTrace
VARIABLES c, l, st
Clauses == {"status", "content", "extra", "full-links", "outside", "others", "diff-content", "diff-extra", "dirs", "unknown-event"}
TFails(s, ev) == AllFails(s, ev) \cap Clauses
INSTANCE TraceRun WITH InitSt <- XInit, Fails <- TFails, Post <- XPost
=============================================================================
