---------------------------- MODULE BuilderTrace ----------------------------
EXTENDS Builder, TraceRun
=============================================================================
