------------------------------ MODULE Retention ------------------------------
(* Checkpoints on disk (property I02): the steps present after a dump under retention *)
(* of k (0: unlimited), and the agreement of all processes on a requested dump.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Most(S, k) == IF k = 0 \/ Cardinality(S) <= k THEN S ELSE {x \in S : Cardinality({y \in S : y > x}) < k}
AfterDump(disk, s, k) == Most(disk \cup {s}, k)
Due(s, iv) == s % iv = 0
=============================================================================
