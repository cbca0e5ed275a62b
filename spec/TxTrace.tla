------------------------------ MODULE TxTrace ------------------------------
EXTENDS TxSpec, TraceRun
=============================================================================
