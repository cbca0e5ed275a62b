----------------------------- MODULE ConcTrace ------------------------------
EXTENDS ConcSpec, TraceRun
=============================================================================
