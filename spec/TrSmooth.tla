---- MODULE TrSmooth ----
EXTENDS Trace, Smooth
====
