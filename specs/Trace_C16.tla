----------------------------- MODULE Trace_C16 -----------------------------
EXTENDS ExportTrace
VARIABLES c, l, st
Clauses == {"status", "view", "regular", "self-link", "others", "outside", "unknown-event"}
TFails(s, ev) == AllFails(s, ev) \cap Clauses
INSTANCE TraceRun WITH InitSt <- XInit, Fails <- TFails, Post <- XPost
=============================================================================
