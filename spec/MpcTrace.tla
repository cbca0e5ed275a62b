----------------------------- MODULE MpcTrace -----------------------------
EXTENDS Mpc, TraceRun
=============================================================================
