---- MODULE TrMisc ----
EXTENDS Trace, Misc
====
