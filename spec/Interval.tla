------------------------------ MODULE Interval ------------------------------
(* When periodic callbacks fire (property H02).  Time is counted in steps; a time *)
(* interval T is a/b steps.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
(* first step at or after a multiple of a/b steps that no earlier step was at or after *)
Fires(a, b, k) == k = 0 \/ (k * b) \div a # ((k - 1) * b) \div a
FiresInt(n, k) == k % n = 0
Pred(m, c, w, k) == (k * m + c) % 7 < w
(* declarative: the steps at which T fires up to step K *)
Ceil(x, y) == (x + y - 1) \div y
Due(a, b, K) == {Ceil(i * a, b) : i \in 0..((K * b) \div a)}
=============================================================================
