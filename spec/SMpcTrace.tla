------------------------------ MODULE SMpcTrace ------------------------------
EXTENDS SMpc, TraceRun
=============================================================================
