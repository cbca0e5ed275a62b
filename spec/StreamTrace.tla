---------------------------- MODULE StreamTrace ----------------------------
EXTENDS StreamSpec, TraceRun
=============================================================================
