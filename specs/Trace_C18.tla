----------------------------- MODULE Trace_C18 -----------------------------
EXTENDS ExportTrace
VARIABLES c, l, st
Clauses == {"status", "content", "extra", "kept", "view", "unknown-event"}
TFails(s, ev) == AllFails(s, ev) \cap Clauses
INSTANCE TraceRun WITH InitSt <- XInit, Fails <- TFails, Post <- XPost
=============================================================================
