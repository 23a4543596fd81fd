---- MODULE MCQed ----
EXTENDS Qed
====
