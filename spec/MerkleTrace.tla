---------------------------- MODULE MerkleTrace ----------------------------
EXTENDS MerkleSpec, TraceRun
=============================================================================
