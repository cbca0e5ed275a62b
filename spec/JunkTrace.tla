---------------------------- MODULE JunkTrace ----------------------------
EXTENDS JunkSpec, TraceRun
=============================================================================
