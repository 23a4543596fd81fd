------------------------------- MODULE MCLoad -------------------------------
(* Patches are loaded on threads in any order, each in two passes over its cells: the     *)
(* first counts the room, the second fills it.  Any profile, any division into patches.     *)
(* Variants: "edge" takes cells at the threshold in the first pass only, "axis" counts       *)
(* with the axis of the first patch, "shared" shares a total between the cells instead of      *)
(* the content of each, "stale" keeps the cursor of the previous patch.                          *)
EXTENDS Load
CONSTANTS NC, Divs, DV, PV, Thr, Variant
VARIABLES dens, ppc, sz, pc, room, cur, pt, slots
vars == <<dens, ppc, sz, pc, room, cur, pt, slots>>
Cells == 0..(NC - 1)
(* a division: number of cells per patch *)
Pats == 1..(NC \div sz)
Of(q) == ((q - 1) * sz)..(q * sz - 1)
Init == /\ dens \in [Cells -> DV] /\ ppc \in [Cells -> PV] /\ sz \in Divs
        /\ pc = [q \in Pats |-> 0] /\ room = [q \in Pats |-> 0] /\ cur = [q \in Pats |-> 0] /\ pt = [q \in Pats |-> 0]
        /\ slots = [q \in Pats |-> <<>>]
N1(c) == IF Variant = "edge" /\ dens[c] = Thr THEN ppc[c] ELSE Loaded(dens[c], Thr, ppc[c])
Count(q) == /\ pc[q] = 0
            /\ room' = [room EXCEPT ![q] = MapThenSumSet(N1, IF Variant = "axis" THEN Of(1) ELSE Of(q))]
            /\ slots' = [slots EXCEPT ![q] = [i \in 1..room'[q] |-> <<-1, 0>>]]
            /\ pc' = [pc EXCEPT ![q] = 1]
            /\ pt' = [pt EXCEPT ![q] = (q - 1) * sz]
            /\ cur' = [cur EXCEPT ![q] = IF Variant = "stale" /\ q > 1 THEN cur[q - 1] ELSE 0]
            /\ UNCHANGED <<dens, ppc, sz>>
Fill(q) == /\ pc[q] = 1 /\ pt[q] <= q * sz - 1
           /\ LET c == pt[q]
                  k == Loaded(dens[c], Thr, ppc[c])
                  w == IF k = 0 THEN 0 ELSE IF Variant = "shared" THEN dens[c] ELSE Share(dens[c], k)
              IN /\ slots' = [slots EXCEPT ![q] = [i \in 1..room[q] |-> IF i > cur[q] /\ i <= cur[q] + k THEN <<c, w>> ELSE slots[q][i]]]
                 /\ cur' = [cur EXCEPT ![q] = @ + k]
           /\ pt' = [pt EXCEPT ![q] = @ + 1]
           /\ UNCHANGED <<dens, ppc, sz, pc, room>>
Done(q) == /\ pc[q] = 1 /\ pt[q] > q * sz - 1
           /\ pc' = [pc EXCEPT ![q] = 2]
           /\ UNCHANGED <<dens, ppc, sz, room, cur, pt, slots>>
Next == \E q \in Pats : Count(q) \/ Fill(q) \/ Done(q)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
All == \A q \in Pats : pc[q] = 2
InCell(c) == {s \in Pats \X (1..20) : s[2] <= room[s[1]] /\ slots[s[1]][s[2]][1] = c}
NoGap == All => \A q \in Pats : \A i \in 1..room[q] : slots[q][i][1] \in Of(q)
Fits == \A q \in Pats : pc[q] = 2 => cur[q] = room[q]
Exact == All => \A c \in Cells :
            LET S == InCell(c) k == Loaded(dens[c], Thr, ppc[c])
            IN /\ Cardinality(S) = k
               /\ (k > 0 => MapThenSumSet(LAMBDA s : slots[s[1]][s[2]][2], S) = dens[c])
=============================================================================
