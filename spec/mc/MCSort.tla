---- MODULE MCSort ----
EXTENDS Sort
====
