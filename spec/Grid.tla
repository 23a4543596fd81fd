-------------------------------- MODULE Grid --------------------------------
(***************************************************************************)
(* The patch grid: D axes (2 or 3), np[a] patches along axis a, each axis   *)
(* periodic or not.  A patch is named by its coordinate vector (0-based);   *)
(* directions are non-zero vectors over {-1,0,1}.  Shared by all modules.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Axes(D) == 1..D
Dirs(D) == {d \in [1..D -> {-1, 0, 1}] : \E a \in 1..D : d[a] # 0}
PatchCoords(np) ==
    IF Len(np) = 2
    THEN {<<i, j>> : i \in 0..(np[1] - 1), j \in 0..(np[2] - 1)}
    ELSE {<<i, j, k>> : i \in 0..(np[1] - 1), j \in 0..(np[2] - 1), k \in 0..(np[3] - 1)}

(* Coordinate of the patch adjacent to c in direction d, wrapped on periodic axes. *)
(* <<>> when the direction leaves the domain through a non-periodic boundary.      *)
Adj(np, per, c, d) ==
    LET D == Len(np)
        raw == [a \in 1..D |-> c[a] + d[a]]
        out == \E a \in 1..D : ~per[a] /\ (raw[a] < 0 \/ raw[a] >= np[a])
    IN IF out THEN <<>> ELSE [a \in 1..D |-> raw[a] % np[a]]

Opp(d) == [a \in DOMAIN d |-> -d[a]]
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
=============================================================================
