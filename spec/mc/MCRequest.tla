---- MODULE MCRequest ----
EXTENDS Request
====
