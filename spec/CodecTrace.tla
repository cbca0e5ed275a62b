---------------------------- MODULE CodecTrace ----------------------------
EXTENDS CodecSpec, TraceRun
=============================================================================
