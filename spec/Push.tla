-------------------------------- MODULE Push --------------------------------
(* One particle's step on a ring of cells with integer momenta: half a move, a kick by   *)
(* the field found there, half a move, a deposit.  The same operators for any path.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Ring(L, x) == x % L
Half(L, p) == [p EXCEPT !.x = Ring(L, p.x + p.u)]
Kick(E, p) == [p EXCEPT !.u = p.u + E[p.x]]
Pushed(L, E, p) == Half(L, Kick(E, Half(L, p)))
(* what a set of particles (live ones) deposits in a cell *)
Deposit(ps, S, c) == MapThenSumSet(LAMBDA i : IF ps[i].x = c THEN ps[i].u ELSE 0, S)
=============================================================================
