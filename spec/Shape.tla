-------------------------------- MODULE Shape --------------------------------
(* Second-order shape weights in exact arithmetic (properties O01, P01).  A position *)
(* is an integer number of u-ths of a cell (u even); all weights are multiplied by     *)
(* 2 u^2 per axis.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(k) == IF k < 0 THEN -k ELSE k
Sh(u, x, i) == LET k == Abs(x - i * u)
               IN IF 2 * k <= u THEN (3 * u * u) \div 2 - 2 * k * k
                  ELSE IF 2 * k <= 3 * u THEN ((3 * u) \div 2 - k) * ((3 * u) \div 2 - k) ELSE 0
(* the tables of one particle on one axis, nodes lo..hi, from x0 to x1:
   s0, s1, d = s1 - s0, c = running sum of d *)
RECURSIVE Cum(_, _, _, _, _)
Cum(u, x0, x1, lo, i) == IF i < lo THEN 0 ELSE Cum(u, x0, x1, lo, i - 1) + Sh(u, x1, i) - Sh(u, x0, i)
Axis(u, x0, x1, lo, hi) == TLCEval([i \in lo..hi |-> [a |-> Sh(u, x0, i) + Sh(u, x1, i), s |-> Sh(u, x1, i), d |-> Sh(u, x1, i) - Sh(u, x0, i),
                                              c |-> IF i * u < (IF x0 < x1 THEN x0 ELSE x1) - 3 * u \/ i * u > (IF x0 < x1 THEN x1 ELSE x0) + 3 * u THEN 0 ELSE Cum(u, x0, x1, ((IF x0 < x1 THEN x0 ELSE x1) \div u) - 3, i)]])
(* the mixed weight of two transverse axes, times 12 *)
Mix(p, q) == 3 * p.a * q.a + p.d * q.d
(* charge and current of one particle with table t (one entry per axis) at cell c:
   rho times (2u^2)^D; j along an axis times 2 (2u^2)^2 in 2D, 12 (2u^2)^3 in 3D; in 2D
   the third component is v_z times 12 (2u^2)^2 *)
Rho2(t, c) == t[1][c[1]].s * t[2][c[2]].s
J2(t, c) == <<-t[1][c[1]].c * t[2][c[2]].a, -t[2][c[2]].c * t[1][c[1]].a, Mix(t[1][c[1]], t[2][c[2]])>>
Rho3(t, c) == t[1][c[1]].s * t[2][c[2]].s * t[3][c[3]].s
J3(t, c) == <<-t[1][c[1]].c * Mix(t[2][c[2]], t[3][c[3]]), -t[2][c[2]].c * Mix(t[1][c[1]], t[3][c[3]]), -t[3][c[3]].c * Mix(t[1][c[1]], t[2][c[2]])>>
=============================================================================
