------------------------------ MODULE Bip39Trace ------------------------------
EXTENDS Bip39, TraceRun
=============================================================================
