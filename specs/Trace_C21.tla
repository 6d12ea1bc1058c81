----------------------------- MODULE Trace_C21 -----------------------------
EXTENDS ExportTrace
VARIABLES c, l, st
Clauses == {"status", "content", "place", "exported", "unknown-event"}
TFails(s, ev) == AllFails(s, ev) \cap Clauses
INSTANCE TraceRun WITH InitSt <- XInit, Fails <- TFails, Post <- XPost
=============================================================================
