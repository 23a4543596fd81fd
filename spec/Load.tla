-------------------------------- MODULE Load --------------------------------
(* Loading: what a cell gets, from the profile of its species.                            *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Loaded(d, min, k) == IF d > min THEN k ELSE 0
(* the share of the cell's content one particle stands for *)
Share(d, k) == d \div k
=============================================================================
