----------------------------- MODULE Checkpoint -----------------------------
(* Runs as histories of states (properties I01, R01): two histories agree when the state *)
(* at every step both contain is the same, in every part.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* a history: a sequence of [s |-> step, ...] *)
At(h, s) == {h[i] : i \in {j \in DOMAIN h : h[j].s = s}}
Functional(h) == \A i, j \in DOMAIN h : h[i].s = h[j].s => h[i] = h[j]
Distinct(q) == \A i, j \in DOMAIN q : i # j => q[i] # q[j]
=============================================================================
