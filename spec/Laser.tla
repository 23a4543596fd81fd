------------------------------- MODULE Laser -------------------------------
(* What a laser boundary owes its user: which lasers shine at a step, where they may write, and       *)
(* when two fields count as the same.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets
(* the lasers shining when the step begins: stops[i] is the first step without laser i *)
Shining(stops, t) == {i \in DOMAIN stops : t < stops[i]}
(* all lasers of a sum leave their mark on the plane, and only those shining *)
Source(stops, t) == Shining(stops, t)
Within(a, b, tol) == LET d == a - b IN d <= tol /\ d >= 0 - tol
AllWithin(s, u, tol) == Len(s) = Len(u) /\ \A i \in DOMAIN s : Within(s[i], u[i], tol)
=============================================================================
