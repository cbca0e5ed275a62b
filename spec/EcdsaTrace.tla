----------------------------- MODULE EcdsaTrace -----------------------------
EXTENDS EcdsaSpec, TraceRun
=============================================================================
