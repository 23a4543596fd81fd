------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* Particle exchange between patches.                                      *)
(*                                                                         *)
(* State: for every patch the bag of its live particles; a particle is a    *)
(* position (one integer per axis, in eighths of a cell, relative to the    *)
(* lower corner of cell 0 - half a cell below its centre) and a vector of    *)
(* the remaining attributes.                                                *)
(*                                                                         *)
(* g is the geometry: np, per, n (cells per patch), lo/hi (thickness of the *)
(* absorbing layer at the two domain ends, in cells; the particle extent of *)
(* the outermost patches is shortened by it).                               *)
(***************************************************************************)
EXTENDS Grid

U == 8  \* position units per cell

ExtLo(g, c, a) == c[a] * g.n[a] * U + (IF c[a] = 0 THEN g.lo[a] * U ELSE 0)
ExtHi(g, c, a) == (c[a] + 1) * g.n[a] * U - (IF c[a] = g.np[a] - 1 THEN g.hi[a] * U ELSE 0)
DomLen(g, a) == g.np[a] * g.n[a] * U

Inside(g, c, pos) == \A a \in DOMAIN pos : pos[a] >= ExtLo(g, c, a) /\ pos[a] <= ExtHi(g, c, a)

(* direction in which a particle at pos leaves patch c (all 0: stays) *)
OffDir(g, c, pos) == [a \in DOMAIN pos |-> IF pos[a] < ExtLo(g, c, a) THEN -1
                                          ELSE IF pos[a] > ExtHi(g, c, a) THEN 1 ELSE 0]

Stays(g, c, pos) == \A a \in DOMAIN pos : OffDir(g, c, pos)[a] = 0

(* the patch a particle of patch c ends up in; <<>> = it leaves the domain *)
DestPatch(g, c, pos) == IF Stays(g, c, pos) THEN c ELSE Adj(g.np, g.per, c, OffDir(g, c, pos))

(* wrap by one domain length on a periodic axis whose end was crossed *)
Wrap(g, pos) == [a \in DOMAIN pos |->
                    IF g.per[a] /\ pos[a] < 0 THEN pos[a] + DomLen(g, a)
                    ELSE IF g.per[a] /\ pos[a] > DomLen(g, a) THEN pos[a] - DomLen(g, a)
                    ELSE pos[a]]

DestPos(g, c, pos) == IF Stays(g, c, pos) THEN pos ELSE Wrap(g, pos)

(* The exchange as a function on live-particle sets.  before: patch -> set of [pos, at].  *)
AllMoves(g, before) ==
    UNION { { [patch |-> DestPatch(g, c, p.pos), pos |-> DestPos(g, c, p.pos), at |-> p.at] :
                  p \in {q \in before[c] : DestPatch(g, c, q.pos) # <<>>} } : c \in DOMAIN before }
Exchanged(g, before) ==
    LET m == AllMoves(g, before)
    IN [c \in DOMAIN before |-> { [pos |-> q.pos, at |-> q.at] : q \in {r \in m : r.patch = c} }]
=============================================================================
