---- MODULE TrFeature ----
EXTENDS Trace, Feature
====
