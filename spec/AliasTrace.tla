---------------------------- MODULE AliasTrace ----------------------------
EXTENDS AliasSpec, TraceRun
=============================================================================
