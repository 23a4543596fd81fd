------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* Patch-local field arrays with guard cells over one global grid.          *)
(*                                                                         *)
(* A patch c holds for every component an array over the local indices      *)
(* -ng .. n-1+ng per axis (stored 1-based: position k is index k-1-ng).      *)
(* Each local cell stands for a cell of the global grid: c*n+i, wrapped on   *)
(* periodic axes; a cell beyond a non-periodic boundary stands for nothing.  *)
(* g: record np, per, n (sequences over axes), ng.                           *)
(***************************************************************************)
EXTENDS Grid, FiniteSetsExt

NDim(g) == Len(g.np)
Ext(g, a) == g.n[a] + 2 * g.ng            \* stored extent
NGlob(g, a) == g.np[a] * g.n[a]

(* global index of stored position k of patch coordinate c on axis a, -1: outside *)
GlobIx(g, a, c, k) ==
    LET i == c * g.n[a] + (k - 1 - g.ng)
    IN IF g.per[a] THEN i % NGlob(g, a) ELSE IF i < 0 \/ i >= NGlob(g, a) THEN -1 ELSE i

InteriorIx(g, a, k) == k > g.ng /\ k <= g.ng + g.n[a]

Cells(g) == IF NDim(g) = 2 THEN (1..Ext(g, 1)) \X (1..Ext(g, 2))
            ELSE (1..Ext(g, 1)) \X (1..Ext(g, 2)) \X (1..Ext(g, 3))
IntCells(g) == IF NDim(g) = 2 THEN ((g.ng + 1)..(g.ng + g.n[1])) \X ((g.ng + 1)..(g.ng + g.n[2]))
               ELSE ((g.ng + 1)..(g.ng + g.n[1])) \X ((g.ng + 1)..(g.ng + g.n[2])) \X ((g.ng + 1)..(g.ng + g.n[3]))
IsInterior(g, k) == \A a \in 1..NDim(g) : InteriorIx(g, a, k[a])
At(arr, k) == IF Len(k) = 2 THEN arr[k[1]][k[2]] ELSE arr[k[1]][k[2]][k[3]]

(* the patch that owns global cell x, and the stored position of x there *)
OwnerOf(g, x) == [a \in 1..NDim(g) |-> x[a] \div g.n[a]]
StoredOf(g, x) == [a \in 1..NDim(g) |-> (x[a] % g.n[a]) + 1 + g.ng]
GlobalOf(g, c, k) == [a \in 1..NDim(g) |-> GlobIx(g, a, c[a], k[a])]
OutOfDomain(x) == \E a \in DOMAIN x : x[a] < 0

(* ---- guard exchange: arrays f (patch -> array) of one component ---------- *)
GuardExpected(g, f, c, k) ==
    IF IsInterior(g, k) THEN At(f[c], k)
    ELSE LET x == GlobalOf(g, c, k)
         IN IF OutOfDomain(x) THEN At(f[c], k) ELSE At(f[OwnerOf(g, x)], StoredOf(g, x))

(* ---- current synchronisation: sum over every stored cell standing for x --- *)
(* per axis: the set of <<patch coordinate, stored position>> standing for i    *)
Standing(g, a, i) == { y \in (0..(g.np[a] - 1)) \X (1..Ext(g, a)) : GlobIx(g, a, y[1], y[2]) = i }
StandTab(g) == [a \in 1..NDim(g) |-> [i \in 0..(NGlob(g, a) - 1) |-> Standing(g, a, i)]]

(* tab = StandTab(g) *)
CurrentTotal(g, tab, f, x) ==
    IF NDim(g) = 2
    THEN MapThenSumSet(LAMBDA y : MapThenSumSet(LAMBDA z : f[<<y[1], z[1]>>][y[2]][z[2]], tab[2][x[2]]), tab[1][x[1]])
    ELSE MapThenSumSet(LAMBDA y : MapThenSumSet(LAMBDA z : MapThenSumSet(LAMBDA w :
             f[<<y[1], z[1], w[1]>>][y[2]][z[2]][w[2]], tab[3][x[3]]), tab[2][x[2]]), tab[1][x[1]])
=============================================================================
