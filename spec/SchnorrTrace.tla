---------------------------- MODULE SchnorrTrace ----------------------------
EXTENDS SchnorrSpec, TraceRun
=============================================================================
