---- MODULE TrMorph ----
EXTENDS Trace, Morph
====
