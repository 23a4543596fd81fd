------------------------------ MODULE Division ------------------------------
(* The division of the grid into patches when the user leaves it to the code, in part *)
(* or altogether (property X01).  n = cells, given = the patches asked for (0: choose), *)
(* ng = guard cells, pml = cells of the absorbing layer.                                *)
EXTENDS Integers, Sequences, FiniteSets
Divisors(n) == {d \in 1..n : n % d = 0}
\* a patch is thicker than the absorbing layer and holds the guard cells of both its sides
Fits(n, d, ng, pml) == d >= 2 /\ n \div d > pml /\ n \div d >= 2 * ng
Choices(n, g, ng, pml) == IF g # 0 THEN {g} \cap Divisors(n) ELSE {d \in Divisors(n) : Fits(n, d, ng, pml)}
Prod(v) == IF Len(v) = 2 THEN v[1] * v[2] ELSE v[1] * v[2] * v[3]
Grids(n, given, ng, pml) ==
    LET C == [a \in 1..Len(n) |-> Choices(n[a], given[a], ng, pml)]
    IN IF Len(n) = 2 THEN {<<x, y>> : x \in C[1], y \in C[2]}
       ELSE {<<x, y, z>> : x \in C[1], y \in C[2], z \in C[3]}
\* what the code may answer when it wants at least `want` patches: a usable grid, with
\* at least `least` of them when there is one with `want`
Allowed(n, given, ng, pml, least, want) ==
    LET G == Grids(n, given, ng, pml)
    IN IF \E g \in G : Prod(g) >= want THEN {g \in G : Prod(g) >= least} ELSE G
\* the patches (origin and size in cells) tile the grid
Cells(n) == IF Len(n) = 2 THEN {<<x, y>> : x \in 0..(n[1] - 1), y \in 0..(n[2] - 1)}
            ELSE {<<x, y, z>> : x \in 0..(n[1] - 1), y \in 0..(n[2] - 1), z \in 0..(n[3] - 1)}
In(t, c) == \A a \in DOMAIN c : t[1][a] <= c[a] /\ c[a] < t[1][a] + t[2][a]
\* two distinct tiles share no cell, none leaves the grid, and their volumes add up
RECURSIVE Volume(_)
Volume(ts) == IF ts = <<>> THEN 0 ELSE Prod(Head(ts)[2]) + Volume(Tail(ts))
Tiles(n, ts) ==
    /\ \A i \in DOMAIN ts : \A a \in DOMAIN n : ts[i][1][a] >= 0 /\ ts[i][2][a] > 0 /\ ts[i][1][a] + ts[i][2][a] <= n[a]
    /\ \A i, j \in DOMAIN ts : i < j => \E a \in DOMAIN n : ts[i][1][a] + ts[i][2][a] <= ts[j][1][a] \/ ts[j][1][a] + ts[j][2][a] <= ts[i][1][a]
    /\ Volume(ts) = Prod(n)
=============================================================================
