--------------------------- MODULE PaillierTrace ---------------------------
EXTENDS PaillierSpec, TraceRun
=============================================================================
