----------------------------- MODULE MCInterp -----------------------------
(* Every position of a cell: the weights of the nine (27) surrounding nodes of every   *)
(* component sum to one, are all non-negative, reproduce a linear field exactly, and       *)
(* are the same whichever cell a position on a cell boundary is attributed to; the variant     *)
(* that forgets the half-cell shift of a staggered component does not.                            *)
EXTENDS Shape
CONSTANTS U, D, Variant
VARIABLES x
Init == x \in [1..D -> -U..(2 * U)]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Half == IF D = 2 THEN {<<1, 0>>, <<0, 1>>, <<0, 0>>, <<1, 1>>}
        ELSE {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<0, 1, 1>>, <<1, 0, 1>>, <<1, 1, 0>>}
Base(y) == (2 * y + U) \div (2 * U)
Offs == [1..D -> -1..1]
Pos(h) == [a \in 1..D |-> IF Variant = "noshift" THEN x[a] ELSE x[a] - h[a] * (U \div 2)]
RECURSIVE Prod(_, _, _)
Prod(y, c, a) == IF a = 0 THEN 1 ELSE Sh(U, y[a], c[a]) * Prod(y, c, a - 1)
RECURSIVE Sum(_, _)
Sum(S, F) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE IN F[o] + Sum(S \ {o}, F)
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Weights(y, b) == [o \in Offs |-> Prod(y, [a \in 1..D |-> b[a] + o[a]], D)]
B(y) == [a \in 1..D |-> Base(y[a])]
One == \A h \in Half : LET y == Pos(h) w == TLCEval(Weights(y, B(y))) IN Sum(Offs, w) = Pow(2 * U * U, D) /\ \A o \in Offs : w[o] >= 0
(* a field equal to the coordinate of its own nodes (2c + half, in half cells) along one axis *)
Linear == \A h \in Half : \A k \in 1..D :
    LET y == Pos(h) b == B(y) w == TLCEval(Weights(y, b))
    IN U * Sum(Offs, [o \in Offs |-> w[o] * (2 * (b[k] + o[k]) + h[k])]) = 2 * x[k] * Pow(2 * U * U, D)
(* position half way between two cells: both stencils give the same weights *)
Tie == \A h \in Half : \A k \in 1..D : LET y == Pos(h) IN (2 * y[k] + U) % (2 * U) = 0 =>
          LET b == B(y) d == [b EXCEPT ![k] = @ - 1]
          IN \A c \in [1..D -> -4..4] : LET near(q) == \A a \in 1..D : c[a] - q[a] \in -1..1
                W(q) == IF near(q) THEN Prod(y, c, D) ELSE 0 IN W(b) = W(d)
=============================================================================
