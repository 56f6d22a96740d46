---- MODULE TrRegion ----
EXTENDS Trace, Region
====
