-------------------------------- MODULE Whole --------------------------------
(* A plasma on a ring of L cells of width M: particles with linear clouds, the field on the  *)
(* cell faces, everything in whole numbers.  Particle: [x |-> 0..L*M-1, u |-> -M..M].            *)
(* Field E[i] is the field on the face between nodes i and i + 1.                                  *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANTS L, M
Cells == 0..(L - 1)
Ring(i) == ((i % L) + L) % L
Place(x) == ((x % (L * M)) + L * M) % (L * M)
CellOf(x) == Place(x) \div M
(* charge a particle puts on node i *)
Cloud(x, i) == LET c == CellOf(x) f == Place(x) % M
               IN (IF Ring(i) = c THEN M - f ELSE 0) + (IF Ring(i) = Ring(c + 1) THEN f ELSE 0)
Rho(ps, i) == MapThenSumSet(LAMBDA k : Cloud(ps[k].x, i), DOMAIN ps)
(* current through the face of cell i (in the frame where x is not wrapped): how far it moves within that cell *)
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Within(x, y, i) == LET a == Hi(Lo(x, y), i * M) b == Lo(Hi(x, y), (i + 1) * M) IN IF b <= a THEN 0 ELSE IF y > x THEN b - a ELSE a - b
(* what it feels: the sign of the field of the faces around it *)
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
Clip(v) == IF v > M THEN M ELSE IF v < -M THEN -M ELSE v
Kicked(p, field) == [p EXCEPT !.u = Clip(p.u + Sgn(field))]
Moved(p) == [p EXCEPT !.x = p.x + p.u]
(* the undivided step *)
Current(ps, qs, i) == MapThenSumSet(LAMBDA k : Within(ps[k].x, qs[k].x, i) + Within(ps[k].x, qs[k].x, i + L) + Within(ps[k].x, qs[k].x, i - L), DOMAIN ps)
GlobalStep(E, ps) ==
    LET ks == [k \in DOMAIN ps |-> Kicked(ps[k], E[CellOf(ps[k].x)] + E[Ring(CellOf(ps[k].x) - 1)])]
        qs == [k \in DOMAIN ps |-> Moved(ks[k])]
    IN <<[i \in Cells |-> E[i] - Current(ks, qs, i)], [k \in DOMAIN qs |-> [qs[k] EXCEPT !.x = Place(qs[k].x)]]>>
Residual(E, ps, i) == E[Ring(i)] - E[Ring(i - 1)] - Rho(ps, i)
=============================================================================
