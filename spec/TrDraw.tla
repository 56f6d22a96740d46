---- MODULE TrDraw ----
EXTENDS Trace, Draw
====
