---- MODULE TrFilter ----
EXTENDS Trace, Filter
====
