---- MODULE TrGeom ----
EXTENDS Trace, Geom
====
