------------------------------ MODULE MsgTrace ------------------------------
EXTENDS MsgSpec, TraceRun
=============================================================================
