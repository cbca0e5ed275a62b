---------------------------- MODULE RpcTrace ----------------------------
EXTENDS RpcSpec, TraceRun
=============================================================================
