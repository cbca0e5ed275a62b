------------------------------- MODULE HdTrace -------------------------------
EXTENDS Hd, TraceRun
=============================================================================
