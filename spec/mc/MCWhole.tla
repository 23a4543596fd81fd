------------------------------- MODULE MCWhole -------------------------------
(* The same plasma on a ring cut into NP patches with one guard cell on either side: every    *)
(* patch works on its own cells only, in any order within a phase: push (reads the field of    *)
(* its cells and guards, deposits into its cells and guards), add up the deposits of cells that  *)
(* stand for the same cell, hand particles over, advance the field, refresh the guards.             *)
(* g, gps: the undivided ring, step by step.                                                            *)
(* Variants: "guards" leaves guard fields alone, "sums" does not add up guard deposits, "late" advances a field before the deposits     *)
(* are added, "twice" adds up a wrapped patch's own images once more.                                        *)
EXTENDS Whole
CONSTANTS NP, N, Starts, Us, Es, Steps, Variant
VARIABLES f, j, ps, at, ph, done, g, gps, r0, t
vars == <<f, j, ps, at, ph, done, g, gps, r0, t>>
n == L \div NP
Pat == 0..(NP - 1)
Loc == -1..n                        \* local cells of a patch, guards included
Glob(q, c) == Ring(q * n + c)
PatOf(x) == CellOf(x) \div n
P == 1..N
Phases == <<"push", "add", "hand", "field", "guard">>
Init == /\ g \in [Cells -> Es]
        /\ gps \in [P -> [x : Starts, u : {v - 1 : v \in Us}]]
        /\ f = [q \in Pat |-> [c \in Loc |-> g[Glob(q, c)]]]
        /\ j = [q \in Pat |-> [c \in Loc |-> 0]]
        /\ ps = gps /\ at = [k \in P |-> PatOf(gps[k].x)]
        /\ ph = 1 /\ done = {} /\ t = 0
        /\ r0 = [i \in Cells |-> Residual(g, gps, i)]
Mine(q) == {k \in P : at[k] = q}
(* where a particle is in the frame of its patch *)
Local(q, x) == LET y == Place(x) - q * n * M IN y
(* the field a particle of the patch feels: the faces left and right of it, guards included *)
Felt(q, k) == LET c == CellOf(ps[k].x) - q * n IN f[q][c] + f[q][c - 1]
Push(q) == LET ks == [k \in Mine(q) |-> Kicked(ps[k], Felt(q, k))]
           IN /\ ps' = [k \in P |-> IF k \in Mine(q) THEN Moved(ks[k]) ELSE ps[k]]
              /\ j' = [j EXCEPT ![q] = [c \in Loc |-> MapThenSumSet(LAMBDA k : LET y == Local(q, ps[k].x) IN Within(y, y + ks[k].u, c), Mine(q))]]
              /\ UNCHANGED <<f, at>>
(* every interior cell gets what others' guards hold for it (old values: deposits are added from copies) *)
Others(q, c) == MapThenSumSet(LAMBDA w : j[w[1]][w[2]], {w \in Pat \X {-1, n} : Glob(w[1], w[2]) = Glob(q, c)})
Add(q) == /\ j' = [j EXCEPT ![q] = [c \in Loc |-> IF c \in {-1, n} \/ Variant = "sums" THEN j[q][c]
                                                   ELSE j[q][c] + Others(q, c) * (IF Variant = "twice" /\ c = 0 THEN 2 ELSE 1)]]
          /\ UNCHANGED <<f, ps, at>>
Hand(q) == /\ at' = [k \in P |-> IF k \in Mine(q) THEN PatOf(ps[k].x) ELSE at[k]]
           /\ ps' = [k \in P |-> IF k \in Mine(q) THEN [ps[k] EXCEPT !.x = Place(ps[k].x)] ELSE ps[k]]
           /\ UNCHANGED <<f, j>>
Field(q) == /\ f' = [f EXCEPT ![q] = [c \in Loc |-> IF c \in {-1, n} THEN f[q][c] ELSE f[q][c] - j[q][c]]]
            /\ UNCHANGED <<j, ps, at>>
Guard(q) == /\ f' = IF Variant = "guards" THEN f ELSE [f EXCEPT ![q] = [c \in Loc |-> IF c \in {-1, n} THEN f[Glob(q, c) \div n][Glob(q, c) % n] ELSE f[q][c]]]
            /\ UNCHANGED <<j, ps, at>>
(* "late": a patch may advance its field while others still add up *)
Do(q) == CASE Phases[ph] = "push" -> Push(q) [] Phases[ph] = "add" -> Add(q) [] Phases[ph] = "hand" -> Hand(q)
           [] Phases[ph] = "field" -> Field(q) [] OTHER -> Guard(q)
Early(q) == /\ Variant = "late" /\ Phases[ph] = "add" /\ q \notin done
            /\ Field(q) /\ done' = done \cup {q} /\ UNCHANGED <<ph, g, gps, r0, t>>
Step(q) == /\ q \notin done /\ t < Steps
           /\ Do(q)
           /\ done' = done \cup {q}
           /\ UNCHANGED <<ph, g, gps, r0, t>>
Advance == /\ done = Pat
           /\ done' = {}
           /\ IF ph < 5 THEN ph' = ph + 1 /\ UNCHANGED <<g, gps, t>>
              ELSE /\ ph' = 1 /\ t' = t + 1
                   /\ LET s == GlobalStep(g, gps) IN g' = s[1] /\ gps' = s[2]
           /\ UNCHANGED <<f, j, ps, at, r0>>
Next == (\E q \in Pat : Step(q) \/ Early(q)) \/ Advance
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Between == ph = 1 /\ done = {}
SameFields == Between => \A q \in Pat : \A c \in Loc : f[q][c] = g[Glob(q, c)]
SameParticles == Between => ps = gps /\ \A k \in P : at[k] = PatOf(ps[k].x)
Gauss == Between => \A i \in Cells : Residual(g, gps, i) = r0[i] /\ f[i \div n][i % n] - f[Ring(i - 1) \div n][Ring(i - 1) % n] - Rho(ps, i) = r0[i]
=============================================================================
