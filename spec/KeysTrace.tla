----------------------------- MODULE KeysTrace -----------------------------
EXTENDS KeysSpec, TraceRun
=============================================================================
