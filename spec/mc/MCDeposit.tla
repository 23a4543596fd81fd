----------------------------- MODULE MCDeposit -----------------------------
(* Every pair of positions less than a cell apart: the deposit obeys continuity in    *)
(* every cell, carries the whole charge, and does not depend on the cell a position on   *)
(* a cell boundary is attributed to.                                                        *)
EXTENDS Shape, TLC
CONSTANTS U, D, Variant
VARIABLES x0, x1
R == -4..4
Init == x0 \in [1..D -> 0..(U - 1)] /\ x1 \in {y \in [1..D -> -U..(2 * U - 1)] : \A a \in 1..D : Abs(y[a] - x0[a]) < U}
Next == UNCHANGED <<x0, x1>>
Spec == Init /\ [][Next]_<<x0, x1>>
T == TLCEval([a \in 1..D |-> Axis(U, x0[a], x1[a], -4, 4)])
T0 == TLCEval([a \in 1..D |-> Axis(U, x0[a], x0[a], -4, 4)])
Cells == [1..D -> -3..3]
Dn(c, a) == [c EXCEPT ![a] = @ - 1]
J(t, c) == IF Variant = "straight" THEN (IF D = 2 THEN <<-t[1][c[1]].c * 2 * t[2][c[2]].s, -t[2][c[2]].c * t[1][c[1]].a, 0>> ELSE J3(t, c)) ELSE IF D = 2 THEN J2(t, c) ELSE J3(t, c)
Rho(t, c) == IF D = 2 THEN 2 * Rho2(t, c) ELSE 12 * Rho3(t, c)
RECURSIVE Div(_, _, _)
Div(t, c, a) == IF a = 0 THEN 0 ELSE Div(t, c, a - 1) + J(t, c)[a] - J(t, Dn(c, a))[a]
Continuity == LET t == TLCEval(T) t0 == TLCEval(T0) IN \A c \in Cells : Rho(t, c) - Rho(t0, c) + Div(t, c, D) = 0
RECURSIVE SumAx(_, _)
SumAx(ax, i) == IF i < -4 THEN 0 ELSE ax[i].s + SumAx(ax, i - 1)
Whole == \A a \in 1..D : SumAx(T[a], 4) = 2 * U * U
=============================================================================
