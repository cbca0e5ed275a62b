--------------------------- MODULE AddressTrace ---------------------------
EXTENDS AddressSpec, TraceRun
=============================================================================
