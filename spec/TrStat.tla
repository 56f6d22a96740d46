---- MODULE TrStat ----
EXTENDS Trace, Stat
====
