---- MODULE MCContainer ----
EXTENDS Container
====
