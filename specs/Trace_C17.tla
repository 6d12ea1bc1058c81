----------------------------- MODULE Trace_C17 -----------------------------
EXTENDS ExportTrace
VARIABLES c, l, st
Clauses == {"status", "exported", "unknown", "links", "reload", "unknown-event"}
TFails(s, ev) == AllFails(s, ev) \cap Clauses
INSTANCE TraceRun WITH InitSt <- XInit, Fails <- TFails, Post <- XPost
=============================================================================
