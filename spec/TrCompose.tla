----------------------------- MODULE TrCompose -----------------------------
EXTENDS Trace, Compose
=============================================================================
